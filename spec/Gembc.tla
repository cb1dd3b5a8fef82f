-------------------------------- MODULE Gembc --------------------------------
(* The generational copying collector (the default collector), at the level of *)
(* cells, generations, forwarding and remembered cards.  A pointer is an       *)
(* address: <<object, generation of the cell>>, so that a pointer which the    *)
(* collector failed to update dangles.  The ghost `abs` is the heap as the     *)
(* program sees it (Heap.tla's objects, by identity); Refine says that what    *)
(* the pointers lead to always is that heap.                                   *)
(*                                                                             *)
(* `hist` is the program so far, as operations of Heap.tla; it is not part of  *)
(* the view, so that TLC's breadth-first search keeps a shortest program for   *)
(* every distinct state, and prints it (Emit) for the driver.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS G,        \* generations
          NO,       \* objects ever allocated
          NR,       \* root variables
          NM,       \* reference members per object (1: One, 2: Pair)
          MaxFail,  \* 1 + how far copying may get before the next generation is full
          NoBarrier,\* TRUE: the write barrier is left out (to see that it matters)
          Emitting
VARIABLES cells, roots, rem, abs, aroots, n, hist
vars == <<cells, roots, rem, abs, aroots, n, hist>>
View == <<cells, roots, rem, abs, aroots, n>>

Gens == 0..(G-1)
Null == <<0, 0>>
NoCell == [st |-> "none", p |-> << >>, to |-> 0]
Card(id) == id % 2
Cell(c, a) == c[a[1]][a[2]]
Upd(c, a, v) == [c EXCEPT ![a[1]][a[2]] = v]
RECURSIVE Follow(_, _)
Follow(c, a) == IF a # Null /\ Cell(c, a).st = "fwd" THEN Follow(c, <<a[1], Cell(c, a).to>>) ELSE a

Init == /\ cells = [i \in 1..NO |-> [g \in Gens |-> NoCell]]
        /\ roots = [r \in 1..NR |-> Null]
        /\ rem = {}
        /\ abs = [i \in 1..NO |-> << >>]
        /\ aroots = [r \in 1..NR |-> 0]
        /\ n = 0
        /\ hist = << <<"push", 0, NR>> >>
TypeNo == IF NM = 1 THEN 2 ELSE 3

-----------------------------------------------------------------------------
(* The program *)
New(r) ==
    /\ n < NO
    /\ n' = n + 1
    /\ cells' = [cells EXCEPT ![n+1][0] = [st |-> "live", p |-> [m \in 1..NM |-> Null], to |-> 0]]
    /\ roots' = [roots EXCEPT ![r] = <<n+1, 0>>]
    /\ abs' = [abs EXCEPT ![n+1] = [m \in 1..NM |-> 0]]
    /\ aroots' = [aroots EXCEPT ![r] = n+1]
    /\ rem' = rem
    /\ hist' = Append(hist, <<"new", TypeNo, 1, r>>)
Write(r, m, v) ==
    /\ roots[r] # Null
    /\ cells' = [cells EXCEPT ![roots[r][1]][roots[r][2]].p[m] = roots[v]]
    /\ rem' = IF roots[r][2] > 0 /\ ~NoBarrier THEN rem \cup {<<roots[r][2], Card(roots[r][1])>>} ELSE rem
    /\ abs' = [abs EXCEPT ![aroots[r]][m] = aroots[v]]
    /\ hist' = Append(hist, <<"wp", 1, r, TypeNo, m, 1, v>>)
    /\ UNCHANGED <<roots, aroots, n>>
Clear(r) ==
    /\ roots[r] # Null
    /\ roots' = [roots EXCEPT ![r] = Null]
    /\ aroots' = [aroots EXCEPT ![r] = 0]
    /\ hist' = Append(hist, <<"clr", 1, r>>)
    /\ UNCHANGED <<cells, rem, abs, n>>
Load(r, m, v) ==
    /\ roots[r] # Null
    /\ roots' = [roots EXCEPT ![v] = Cell(cells, roots[r]).p[m]]
    /\ aroots' = [aroots EXCEPT ![v] = abs[aroots[r]][m]]
    /\ hist' = Append(hist, <<"rp", 1, r, TypeNo, m, 1, v>>)
    /\ UNCHANGED <<cells, rem, abs, n>>

-----------------------------------------------------------------------------
(* Collecting generation gen: everything reachable in generations <= gen is   *)
(* copied to gen+1.  The state of a collection is s = [c cells, r roots,      *)
(* q locations to search, gen, left copies until the next generation is full] *)
(* A location is <<"r", root>> or <<"c", address, member>>.                   *)
At(s, l) == IF l[1] = "r" THEN s.r[l[2]] ELSE Cell(s.c, l[2]).p[l[3]]
PutAt(s, l, v) == IF l[1] = "r" THEN [s EXCEPT !.r[l[2]] = v]
                  ELSE [s EXCEPT !.c[l[2][1]][l[2][2]].p[l[3]] = v]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RootLocs == [r \in 1..NR |-> <<"r", r>>]
CardLocs(c, rm, gen) ==
    SeqOf({<<"c", <<i, g>>, m>> : i \in {j \in 1..NO : TRUE}, g \in {x \in Gens : x > gen}, m \in 1..NM}
          \cap {<<"c", a, m>> : a \in {<<i, g>> \in (1..NO) \X Gens : c[i][g].st = "live" /\ <<g, Card(i)>> \in rm},
                                m \in 1..NM})
Start(s, gen) == [s EXCEPT !.gen = gen, !.q = RootLocs \o CardLocs(s.c, rem, gen)]

\* the in-place collection of everything
Mark(s) == LET RECURSIVE M(_, _)
               M(front, seen) == IF front = {} THEN seen ELSE
                   LET nx == {Follow(s.c, a) : a \in UNION {{Cell(s.c, f).p[m] : m \in 1..NM} : f \in front} \ {Null}} \ seen
                   IN M(nx, seen \cup nx)
               start == {Follow(s.c, s.r[r]) : r \in {x \in 1..NR : s.r[x] # Null}}
           IN M(start, start)
Full(s) ==
    LET live == Mark(s)
        c1 == [i \in 1..NO |-> [g \in Gens |->
                 IF <<i, g>> \in live
                 THEN [st |-> "live", p |-> [m \in 1..NM |-> Follow(s.c, s.c[i][g].p[m])], to |-> 0]
                 ELSE NoCell]]
    IN [s EXCEPT !.c = c1, !.r = [r \in 1..NR |-> Follow(s.c, s.r[r])], !.gen = G-1,
                 !.rem = {<<g, Card(i)>> : <<i, g>> \in {a \in live : a[2] > 0 /\ \E m \in 1..NM :
                                      c1[a[1]][a[2]].p[m] # Null /\ c1[a[1]][a[2]].p[m][2] < a[2]}}]

RECURSIVE Run(_)
Run(s) ==
    IF s.gen >= G-1 THEN Full(s)
    ELSE IF s.q = << >> THEN
        \* done: the generations up to gen are empty, and cards of gen+1 forgotten
        [s EXCEPT !.c = [i \in 1..NO |-> [g \in Gens |-> IF g <= s.gen THEN NoCell ELSE s.c[i][g]]],
                  !.rem = {x \in s.rem : x[1] > s.gen + 1}]
    ELSE LET l == Head(s.q)
             a == Follow(s.c, At(s, l))
             s1 == [PutAt(s, l, a) EXCEPT !.q = Tail(s.q)]
         IN IF a = Null THEN Run([s EXCEPT !.q = Tail(s.q)])
            ELSE IF a[2] > s.gen THEN Run(s1)
            ELSE IF s.left = 0 THEN Run(Start([s EXCEPT !.left = s.then, !.then = -1], s.gen + 1))
            ELSE LET b == <<a[1], s.gen + 1>>
                     s2 == [s1 EXCEPT !.c[b[1]][b[2]] = Cell(s.c, a),
                                      !.c[a[1]][a[2]] = [st |-> "fwd", p |-> Cell(s.c, a).p, to |-> b[2]],
                                      !.left = @ - 1]
                     s3 == PutAt(s2, l, b)
                 IN Run([s3 EXCEPT !.q = [m \in 1..NM |-> <<"c", b, m>>] \o @])
Collected(c, r, rm, gen, f1, f2) == Run(Start([c |-> c, r |-> r, rem |-> rm, q |-> << >>, gen |-> gen, left |-> f1, then |-> f2], gen))

\* the youngest generation is full; f1, f2: where copying hits the end of the
\* next generation, and of the one after that (negative: it doesn't)
Minor(f1, f2) ==
    /\ LET s == Collected(cells, roots, rem, 0, f1, f2)
       IN cells' = s.c /\ roots' = s.r /\ rem' = s.rem
    /\ hist' = Append(hist, <<"churn", 0, 1>>)
    /\ UNCHANGED <<abs, aroots, n>>
RECURSIVE All(_, _)
All(s, gen) == IF gen > G-1 THEN s ELSE All(Collected(s.c, s.r, s.rem, gen, -1, -1), gen + 1)
Major ==
    /\ LET s == All([c |-> cells, r |-> roots, rem |-> rem], 0)
       IN cells' = s.c /\ roots' = s.r /\ rem' = s.rem
    /\ hist' = Append(hist, <<"collect">>)
    /\ UNCHANGED <<abs, aroots, n>>

Next == \/ \E r \in 1..NR : New(r) \/ Clear(r)
        \/ \E r, v \in 1..NR, m \in 1..NM : Write(r, m, v) \/ Load(r, m, v)
        \/ \E f1, f2 \in (-1)..(MaxFail-1) : Minor(f1, f2)
        \/ Major
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the pointers lead to is what the program put there, identities and all *)
RECURSIVE Same(_, _)
Same(front, seen) ==
    IF front = {} THEN TRUE
    ELSE /\ \A a \in front :
              /\ Cell(cells, a).st = "live"
              /\ \A m \in 1..NM : Cell(cells, a).p[m][1] = abs[a[1]][m]
         /\ LET nx == (UNION {{Cell(cells, a).p[m] : m \in 1..NM} : a \in front} \ {Null}) \ seen
            IN /\ \A a, b \in nx \cup seen : a[1] = b[1] => a = b
               /\ Same(nx, seen \cup nx)
Refine == /\ \A r \in 1..NR : roots[r][1] = aroots[r]
          /\ LET s == {roots[r] : r \in 1..NR} \ {Null} IN Same(s, s)
\* no pointer, even of a dead cell which may yet be scanned, dangles
NoDangling == \A i \in 1..NO, g \in Gens : cells[i][g].st = "live" =>
                  \A m \in 1..NM : LET a == cells[i][g].p[m] IN a # Null => Cell(cells, a).st = "live"
\* what justifies collecting a young generation alone
Remembered == \A i \in 1..NO, g \in Gens : cells[i][g].st = "live" =>
                  \A m \in 1..NM : LET a == cells[i][g].p[m]
                                   IN a # Null /\ a[2] < g => <<g, Card(i)>> \in rem
\* only one copy of anything, and everything dead is gone after a full collection
NoForward == \A i \in 1..NO, g \in Gens : cells[i][g].st # "fwd"

Emit == Emitting /\ hist[Len(hist)][1] \in {"churn", "collect"} => PrintT(<<"SCRIPT", ToJson(hist)>>)
Bound == Len(hist) <= 40
=============================================================================

------------------------------ MODULE HeapGen ------------------------------
(* Generates programs: random behaviours of Heap, printed as scripts for the *)
(* driver.  Run with TLC's simulator; Next has exactly one successor, chosen *)
(* at random with the weights W.                                             *)
EXTENDS Heap, Json
CONSTANTS W,        \* weights: a sequence of <<operation class, weight>>
          N,        \* operations in a program
          MaxObjs,  \* objects allocated (not counting garbage) at most
          MaxLen,   \* longest array
          MaxWords, \* words reachable at most, about (0: no limit)
          Tag,      \* internal tagging available
          MaxFrames
VARIABLES h, hist, todo
vars == <<h, hist, todo>>

Total == LET RECURSIVE S(_)
             S(i) == IF i = 0 THEN 0 ELSE W[i][2] + S(i-1)
         IN S(Len(W))
ClassOf(r) == LET RECURSIVE F(_, _)
                  F(i, x) == IF x <= W[i][2] THEN W[i][1] ELSE F(i+1, x - W[i][2])
              IN F(1, r)

One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* variables within reach of the current code: globals, and the top three frames and the bottom one
Slots(x) == {<<0, s>> : s \in 1..Len(x.globs)}
            \cup UNION {{<<f, s>> : s \in 1..Len(x.frames[f])} :
                        f \in {g \in 1..Len(x.frames) : g > Len(x.frames) - 3 \/ g = 1}}
TopSlots(x) == LET f == Len(x.frames) IN {<<f, s>> : s \in 1..Len(x.frames[f])}
ObjSlots(x) == {q \in Slots(x) : IsObj(x, Get(x, q[1], q[2]))}
OA(x, q) == x.objs[Get(x, q[1], q[2])]
PtrSlots(x) == {q \in ObjSlots(x) : OA(x, q).t # TDesc /\ Len(OA(x, q).p) >= PFirst(OA(x, q))}
DatSlots(x) == {q \in ObjSlots(x) : OA(x, q).t # TBlob /\ Len(OA(x, q).d) > 0}
ArrSlots(x) == {q \in ObjSlots(x) : IsArr(OA(x, q).t)}
DescSlots(x) == {q \in ObjSlots(x) : OA(x, q).t = TDesc}
UpSlots(x) == {q \in ObjSlots(x) : OA(x, q).t \in (1..NTypes) \cup {TDyn}}
FinSlots(x) == {q \in ObjSlots(x) : OA(x, q).t \notin {TDesc}}

\* the candidates for an operation of a class: a set with at most one element
Cand(x, c) ==
    CASE c = "new"   -> {<<"new", t, q[1], q[2]>> : t \in One(1..NTypes), q \in One(Slots(x))}
      [] c = "newpa" -> {<<"newpa", n, q[1], q[2]>> : n \in One(1..MaxLen), q \in One(Slots(x))}
      [] c = "newda" -> {<<"newda", k, n, q[1], q[2]>> :
                           k \in One({TDA, TCA, TDD, TDS}), n \in One(1..MaxLen), q \in One(Slots(x))}
      [] c = "blob"  -> {<<"blob", k, n, q[1], q[2]>> :
                           k \in One(0..3), n \in One({2, 9, 50, 200, 700, 1500, 3600}), q \in One(Slots(x))}
      [] c = "desc"  -> {<<"desc", k, n, q[1], q[2]>> :
                           k \in One(0..7), n \in One(0..160), q \in One(Slots(x))}
      [] c = "newd"  -> {<<"newd", d[1], d[2], q[1], q[2]>> :
                           d \in One(DescSlots(x)), q \in One(Slots(x))}
      [] OTHER -> {}

Chosen(x, c) ==
    CASE c = "wp" -> UNION {{<<"wp", o[1], o[2], OA(x, o).t, m, v[1], v[2]>> :
                        m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)), v \in One(Slots(x))} : o \in One(PtrSlots(x))}
      [] c = "wpo" -> UNION {{<<"wp", o[1], o[2], OA(x, o).t, m, v[1], v[2]>> :
                        m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)), v \in One(ObjSlots(x))} : o \in One(PtrSlots(x))}
      [] c = "wn" -> UNION {{<<"wn", o[1], o[2], OA(x, o).t, m>> :
                        m \in One(PFirst(OA(x, o))..Len(OA(x, o).p))} : o \in One(PtrSlots(x))}
      \* (often between the same members of two objects of a type)
      [] c = "cp" -> UNION {UNION {{<<"cp", o[1], o[2], OA(x, o).t, IF OA(x, o).t = OA(x, v).t /\ b <= Len(OA(x, o).p) /\ b > 0 THEN b ELSE m,
                                      v[1], v[2], OA(x, v).t, IF b > 0 THEN b ELSE m2>> :
                        b \in One({0} \cup (PFirst(OA(x, v))..Len(OA(x, v).p))),
                        m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)), m2 \in One(PFirst(OA(x, v))..Len(OA(x, v).p))} :
                        v \in One(LET same == {y \in PtrSlots(x) : OA(x, y).t = OA(x, o).t /\ y # o}
                                  IN IF same = {} THEN PtrSlots(x) ELSE same)} : o \in One(PtrSlots(x))}
      [] c = "rp" -> UNION {{<<"rp", o[1], o[2], OA(x, o).t, m, v[1], v[2]>> :
                        m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)), v \in One(Slots(x))} : o \in One(PtrSlots(x))}
      [] c = "wd" -> UNION {{<<"wd", o[1], o[2], OA(x, o).t, m, v>> :
                        m \in One(1..Len(OA(x, o).d)), v \in One(0..15)} : o \in One(DatSlots(x))}
      [] c = "rd" -> UNION {{<<"rd", o[1], o[2], OA(x, o).t, m>> :
                        m \in One(1..Len(OA(x, o).d))} : o \in One(DatSlots(x))}
      [] c = "len" -> {<<"len", o[1], o[2], OA(x, o).t>> : o \in One(ArrSlots(x))}
      [] c = "mv" -> {<<"mv", a[1], a[2], b[1], b[2]>> : a \in One(Slots(x)), b \in One(Slots(x))}
      [] c = "clr" -> {<<"clr", a[1], a[2]>> : a \in One(ObjSlots(x))}
      [] c = "imm" -> IF Tag THEN {<<"imm", a[1], a[2], 0 - k>> : a \in One(Slots(x)), k \in One(1..30)} ELSE {}
      [] c = "eq" -> {<<"eq", a[1], a[2], b[1], b[2]>> : a \in One(Slots(x)), b \in One(Slots(x))}
      [] c = "wup" -> {<<"wup", o[1], o[2], OA(x, o).t, v[1], v[2]>> : o \in One(UpSlots(x)), v \in One(Slots(x))}
      [] c = "rup" -> {<<"rup", o[1], o[2], OA(x, o).t, v[1], v[2]>> : o \in One(UpSlots(x)), v \in One(Slots(x))}
      [] c = "push" -> IF Len(x.frames) >= MaxFrames THEN {}
                       ELSE {<<"push", k, n>> : k \in One(0..3), n \in One(1..16)}
      [] c = "push2" -> IF Len(x.frames) >= MaxFrames THEN {}
                       ELSE {<<"push", k, n>> : k \in One(0..3), n \in One(2..4)}
      [] c = "pop" -> IF Len(x.frames) <= 1 THEN {} ELSE {<<"pop">>}
      [] c = "glob" -> IF Len(x.globs) > 8 THEN {} ELSE {<<"glob", n>> : n \in One(1..3)}
      [] c = "fin" -> {<<"fin", o[1], o[2], k>> : o \in One(FinSlots(x)), k \in One({0, 0, 1, 2, 3, 4, 5})}
      [] c = "resget" -> {<<"resget", v[1], v[2]>> : v \in One(Slots(x))}
      [] c = "jpush" -> UNION {{<<"jpush">> \o w1 \o w2 \o w3 : w2 \in One({<<>>, <<-2, 5>>, <<-3, 0>>, a, b}),
                                 w3 \in One({<<>>, <<-2, 7>>, <<-2, 9, -3, 0, -2, 3>> \o a, b \o a \o b, a \o <<-3, 0>>,
                                              \* the words under one tag word, and more
                                              a \o b \o a \o <<-2, 4>> \o b \o b, <<-2, 2>> \o a \o b \o a \o <<-2, 4>> \o b \o b,
                                              a \o a \o b \o <<-3, 0>> \o b \o b \o a,
                                              a \o b \o a \o <<-2, 4>> \o b \o b \o <<-2, 6, -3, 0, -2, 3>> \o a \o a \o <<-2, 0>> \o b \o b \o a}),
                                 w1 \in One({a, b, <<-2, 1>>, <<-3, 0>>})} :
                                a \in One(Slots(x)), b \in One(Slots(x))}
      [] c = "jpop" -> IF x.jit = << >> THEN {} ELSE {<<"jpop">>}
      [] c = "jrd" -> {<<"mv", v[1], v[2], -1, i>> : v \in One(Slots(x)),
                            i \in One({j \in 1..Len(x.jit) : x.jit[j].ref})}
      [] c = "jwr" -> {<<"mv", -1, i, v[1], v[2]>> : v \in One(Slots(x)),
                            i \in One({j \in 1..Len(x.jit) : x.jit[j].ref})}
      [] c = "churn" -> {<<"churn", k, n>> : k \in One(0..3), n \in One(1..3)}
      [] c = "minor" -> {<<"churn", k, 1>> : k \in One(0..3)}
      [] c = "pad" -> {<<"pad", k>> : k \in One(1..60)}
      [] c = "collect" -> {<<"collect">>}
      [] c = "thin" -> {<<"thin", q[1], q[2]>> : q \in One({q \in ObjSlots(x) : OA(x, q).t = TBlob /\ OA(x, q).d[1] < 12})}
      [] c = "yield" -> {<<"yield">>}
      [] c = "zero" -> {<<"zero", k>> : k \in One(0..3)}
      [] c = "big" -> {<<"big", k>> : k \in One(0..9)}
      [] c = "obs" -> {<<"obs">>}
      [] c = "steady" -> {<<"steady", k, n>> : k \in One(0..6), n \in One({20, 60})}
      [] c = "refuse" -> {<<"refuse", k, m>> : k \in One({0, 0, 1, 2, 3, 5, 8, 20}), m \in One({0, 0, 0, 1, 2, 4, 9})}
      [] c = "grant" -> {<<"refuse", -1>>}
      [] c = "mem" -> {<<"mem">>}
      [] c = "over" -> {<<"over", k, n>> : k \in One({4, 5, 9, 100, 100000, 1000000000}), n \in One(0..4)}
      [] c = "corrupt" -> {<<"corrupt", o[1], o[2], k, n>> : o \in One(ObjSlots(x)), k \in One(0..2), n \in One(0..63)}
      [] OTHER -> Cand(x, c)

Allocs == {"new", "newpa", "newda", "blob", "desc", "newd"}
LiveWords(x) == LET RECURSIVE S(_) S(R) == IF R = {} THEN 0 ELSE LET i == CHOOSE i \in R : TRUE IN Words(x.objs[i]) + S(R \ {i})
                IN S(Reach(x))
Small(x, S) == IF MaxWords = 0 THEN S
               ELSE {op \in S : op[1] \notin Allocs \/ LiveWords(x) + Words(Do(x, op).objs[Len(x.objs) + 1]) <= MaxWords}
Op(x, c) == LET s == IF c \in Allocs /\ Len(x.objs) >= MaxObjs THEN {} ELSE Small(x, Chosen(x, c))
                b == IF Len(x.objs) >= MaxObjs THEN {} ELSE Small(x, Chosen(x, "new"))
            IN  IF x.dying # 0 THEN {<<"obs">>}
                ELSE IF x.corr # {} THEN One({<<"collect">>, <<"churn", 0, 1>>, <<"churn", 2, 2>>})
                ELSE IF s # {} THEN s ELSE IF b # {} THEN b ELSE {<<"obs">>}

\* Some things take several operations: an object which may be old is made to hold the only reference to a new one, which is
\* written directly or copied from another object's member; then the youngest objects are collected.
OldSlots(x) == LET old == {q \in PtrSlots(x) : Get(x, q[1], q[2]) + 4 < Len(x.objs)} IN IF old = {} THEN PtrSlots(x) ELSE old
Settle(k) == One({<< >>, << <<"churn", k, 1>> >>, << <<"churn", k, 1>>, <<"churn", k, 1>> >>, << <<"churn", k, 2>> >>})
Kept(o, z, t, m, k) ==   \* by o's member
    << <<"new", t, z[1], z[2]>> >> \o (IF Types[t].d > 0 THEN << <<"wd", z[1], z[2], t, Types[t].d, 9>> >> ELSE << >>)
    \o k \o << <<"clr", z[1], z[2]>> >>
Motif(x, c) ==
    IF Len(x.objs) + 2 > MaxObjs \/ MaxWords > 0 THEN {}
    ELSE CASE c = "lost" ->
           UNION {UNION {{Kept(o, z, t, m, << <<"wp", o[1], o[2], OA(x, o).t, m, z[1], z[2]>> >>) \o e :
                            t \in One({1, 2, 3, 4, 6}), m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)), e \in Settle(RandomElement({i \in 0..3 : Len(x.objs) >= 0}))} :
                            z \in One(Slots(x) \ {o})} : o \in One(OldSlots(x))}
           [] c = "lostcp" ->
           UNION {UNION {{ << <<"new", t2, y[1], y[2]>> >>
                           \o Kept(o, z, t, m, << <<"wp", y[1], y[2], t2, IF t2 = OA(x, o).t THEN m ELSE 1, z[1], z[2]>> >>)
                           \o << <<"cp", o[1], o[2], OA(x, o).t, m, y[1], y[2], t2, IF t2 = OA(x, o).t THEN m ELSE 1>>,
                                  <<"clr", y[1], y[2]>> >> \o e :
                            t2 \in One(IF OA(x, o).t \in {2, 3, 4, 5} THEN {OA(x, o).t} ELSE {2, 3, 4}),
                            t \in One({1, 2, 3, 4, 6}), m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)), e \in Settle(RandomElement({i \in 0..3 : Len(x.objs) >= 0})),
                            y \in One(Slots(x) \ {o, z})} :
                            z \in One(Slots(x) \ {o})} : o \in One(OldSlots(x))}
           \* a large structure which gets old, and is full of holes after that
           [] c = "comb" ->
           {<< <<"blob", k, n, q[1], q[2]>> >> \o a \o << <<"thin", q[1], q[2]>> >> \o b \o << <<"thin", q[1], q[2]>>, <<"collect">>, <<"obs">> >> :
               k \in One(0..3), n \in One({9, 40, 100, 200, 700}), q \in One(Slots(x)),
               a \in One({<< >>, << <<"collect">> >>, << <<"churn", 0, 1>>, <<"pad", 9>> >>, << <<"churn", 2, 1>>, <<"collect">> >>}),
               b \in One({<< >>, << <<"collect">> >>, << <<"churn", 1, 1>> >>, << <<"collect">>, <<"obs">> >>})}
           \* the guard word of an object which the program doesn't hold itself, and which may be old, is overwritten
           [] c = "buried" ->
           UNION {UNION {{ << <<"new", t2, y[1], y[2]>>, <<"new", t, z[1], z[2]>>, <<"wp", y[1], y[2], t2, 1, z[1], z[2]>>,
                              <<"wp", o[1], o[2], OA(x, o).t, m, y[1], y[2]>>, <<"clr", y[1], y[2]>> >> \o e \o
                           << <<"corrupt", z[1], z[2], k, n>>, <<"clr", z[1], z[2]>> >> \o w :
                            t2 \in One({2, 3, 4}), t \in One({1, 2, 3, 4, 6}), m \in One(PFirst(OA(x, o))..Len(OA(x, o).p)),
                            e \in One({<< >>, << <<"churn", 0, 1>> >>, << <<"collect">> >>, << <<"collect">>, <<"churn", 1, 1>> >>,
                                       << <<"collect">>, <<"collect">>, <<"collect">> >>}),
                            k \in One(0..2), n \in One(0..63),
                            w \in One({<< <<"collect">> >>, << <<"churn", 0, 1>> >>, << <<"churn", 1, 1>> >>, << <<"churn", 3, 2>> >>}),
                            y \in One(Slots(x) \ {o, z})} :
                            z \in One(Slots(x) \ {o})} : o \in One(OldSlots(x))}
           [] OTHER -> {}

Init == todo = << >> /\ h = PushFrame(Empty, 6) /\ hist = << <<"push", 0, 6>> >>
Next == /\ Len(hist) < N
        /\ \E r \in {RandomElement(1..Total)} :
           \E f \in IF todo # << >> THEN {todo} ELSE LET m == Motif(h, ClassOf(r)) IN IF m # {} THEN m ELSE {<< >>} :
           \E op \in IF f # << >> /\ h.dying = 0 THEN {f[1]} ELSE Op(h, ClassOf(r)) :
              LET op1 == IF Len(hist) = N - 1 /\ h.corr = {} THEN <<"obs">> ELSE op
              IN  /\ Assert(Can(h, op1), <<"generator", op1>>)
                  /\ h' = Do(h, op1)
                  /\ hist' = Append(hist, op1)
                  /\ todo' = IF f # << >> THEN Tail(f) ELSE f
        /\ Len(hist') = N => PrintT(<<"SCRIPT", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
=============================================================================

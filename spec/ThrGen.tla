------------------------------- MODULE ThrGen -------------------------------
(* Generates programs of several threads: one interleaving of them is built,  *)
(* in which nobody ever waits in vain.  As semaphores have one consumer each, *)
(* barriers always the same parties, and nobody waits while holding a lock    *)
(* (but for locks of higher number), no other interleaving can deadlock.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, N, MaxT
VARIABLES x, hist
vars == <<x, hist>>

Total == LET RECURSIVE S(_)
             S(i) == IF i = 0 THEN 0 ELSE W[i][2] + S(i-1)
         IN S(Len(W))
ClassOf(r) == LET RECURSIVE F(_, _)
                  F(i, y) == IF y <= W[i][2] THEN W[i][1] ELSE F(i+1, y - W[i][2])
              IN F(1, r)
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
T == 1..MaxT
Res == 0    \* the semaphore used as a resource of two units; also its place in the order of locks

\* (depending on the state, lest they be chosen once and for all)
V == One({k \in 1..3 : Len(hist) >= 0})
F == One({k \in 1..2 : Len(hist) >= 0})
Live == {t \in T : x.st[t] = "live"}
Kids(t) == {u \in T : x.par[u] = t /\ x.st[u] \in {"live", "done"}}
Free(t) == x.held[t] = {}

\* sequences of <<thread, operation...>> which a class may add: a set with at most one element
Chosen(c, t) ==
    CASE c = "new" -> {<< <<t, "new", k, z>> >> : k \in V, z \in One(1..5)}
      [] c = "chain" -> {<< <<t, "chain", k, n>> >> : k \in V, n \in One({3, 10, 30})}
      [] c \in {"wp"} -> {<< <<t, "wp", k, f, j>> >> : k \in V, f \in F, j \in V}
      [] c = "wn" -> {<< <<t, "wn", k, f>> >> : k \in V, f \in F}
      [] c = "rp" -> {<< <<t, "rp", k, f, j>> >> : k \in V, f \in F, j \in V}
      [] c = "mv" -> {<< <<t, "mv", k, j>> >> : k \in V, j \in V}
      [] c = "eq" -> {<< <<t, "eq", k, j>> >> : k \in V, j \in V}
      [] c = "clr" -> {<< <<t, "clr", k>> >> : k \in V}
      [] c \in {"gset", "gget"} -> {<< <<t, c, g, k>> >> : g \in V, k \in V}
      [] c \in {"jset", "jget"} -> {<< <<t, c, g, k>> >> : g \in One(1..4), k \in V}
      [] c = "churn" -> {<< <<t, "churn", k, n>> >> : k \in One(0..2), n \in One(1..3)}
      [] c \in {"collect", "yield", "obs"} -> {<< <<t, c>> >>}
      [] c = "fin" -> {<< <<t, "fin", k>> >> : k \in V}
      [] c = "call" -> IF x.depth[t] < 8 THEN {<< <<t, "call">> >>} ELSE {}
      [] c = "ret" -> IF x.depth[t] > 0 THEN {<< <<t, "ret", k, j>> >> : k \in V, j \in V} ELSE {}
      [] c = "lock" -> {<< <<t, "lock", m>> >> : m \in One({m \in 1..2 : /\ \A q \in x.held[t] : q < m
                                                                         /\ \A u \in T : m \notin x.held[u]})}
      [] c = "trylock" -> {<< <<t, "trylock", m>> >> : m \in One(1..2)}
      [] c = "acq" -> IF Free(t) /\ Cardinality({u \in T : Res \in x.held[u]}) < 2 THEN {<< <<t, "wait", Res>> >>} ELSE {}
      [] c = "rel" -> {<< (IF m = Res THEN <<t, "post", Res>> ELSE <<t, "unlock", m>>) >> : m \in One(x.held[t])}
      [] c = "post" -> {<< <<t, "post", s>> >> : s \in One(1..2)}
      [] c = "wait" -> IF Free(t) THEN {<< <<t, "wait", s>> >> :
                            s \in One({s \in 1..2 : x.bal[s] > 0 /\ x.cons[s] \in {0, t}})} ELSE {}
      [] c = "bwait" -> IF Free(t) THEN {<< <<t, "bwait", s>> >> :
                            s \in One({s \in 1..2 : x.bal[s] > 0 /\ x.cons[s] \in {0, t}})} ELSE {}
      [] c = "nap" -> {<< <<t, "nap", n>> >> : n \in One({0, 1, 5, 40})}
      [] c = "bar" -> UNION {UNION {
                            IF p \subseteq {u \in Live : Free(u)} /\ (x.parts[b] # {} \/ Cardinality(p) >= 1)
                            THEN {[i \in 1..Cardinality(p) |->
                                     LET q == CHOOSE q \in [1..Cardinality(p) -> p] : \A a1, b1 \in DOMAIN q : a1 # b1 => q[a1] # q[b1]
                                     IN <<q[i], "bar", b>>]} ELSE {}
                            : p \in IF x.parts[b] # {} THEN {x.parts[b]} ELSE One(SUBSET {u \in Live : Free(u)} \ {{}})}
                        : b \in One(0..1)}
      [] c = "create" -> LET ks == {k \in T : x.st[k] = "no"} IN
                         IF ks = {} THEN {} ELSE {<< <<t, "create", CHOOSE k \in ks : \A l \in ks : k <= l, v>> >> : v \in V}
      [] c = "exit" -> IF t # 1 /\ Free(t) /\ Kids(t) = {} THEN {<< <<t, "obs">> >>} ELSE {}
      [] c = "join" -> IF Free(t) THEN {<< <<t, "join", u>> >> : u \in One({u \in Kids(t) : x.st[u] = "done"})} ELSE {}
      [] c = "xlock" -> {<< <<t, c, 3, e>> >> : e \in One({11, 22, 35})}
      [] c = "xwait" -> {<< <<t, c, 3, e>> >> : e \in One({4, 22})}
      [] c = "xbar" -> {<< <<t, c, 3, 22>> >>}
      [] c = "xjoin" -> {<< <<t, c, 0, e>> >> : e \in One({3, 22, 35})}
      [] c = "xcreate" -> {<< <<t, c, e>> >> : e \in One({1, 11, 12})}
      [] c = "refuse" -> {<< <<t, c, n>> >> : n \in One(0..6)}
      [] c = "storm" -> IF t = 1 THEN {<< <<t, "storm", n>> >> : n \in One({5, 40, 300})} ELSE {}

After(c, t, ops) ==
    LET op == ops[1] IN
    CASE c = "call" -> [x EXCEPT !.depth[t] = @ + 1]
      [] c = "ret" -> [x EXCEPT !.depth[t] = @ - 1]
      [] c = "lock" -> [x EXCEPT !.held[t] = @ \cup {op[3]}]
      [] c = "acq" -> [x EXCEPT !.held[t] = @ \cup {Res}]
      [] c = "rel" -> [x EXCEPT !.held[t] = @ \ {op[3]}]
      [] c = "post" -> [x EXCEPT !.bal[op[3]] = @ + 1]
      [] c \in {"wait", "bwait"} -> [x EXCEPT !.bal[op[3]] = @ - 1, !.cons[op[3]] = t]
      [] c = "bar" -> [x EXCEPT !.parts[op[3]] = {ops[i][1] : i \in 1..Len(ops)}]
      [] c = "create" -> [x EXCEPT !.st[op[3]] = "live", !.par[op[3]] = t]
      [] c = "exit" -> [x EXCEPT !.st[t] = "done"]
      [] c = "join" -> [x EXCEPT !.st[op[3]] = "joined"]
      [] OTHER -> x

\* the end: locks are released, threads finish, and are joined
Closing ==
    LET h == {t \in T : x.held[t] # {}} d == {u \in T : x.st[u] = "done"} l == {t \in Live : t # 1 /\ Kids(t) = {}} IN
    IF h # {} THEN <<"rel", CHOOSE t \in h : TRUE>>
    ELSE IF d # {} THEN <<"join", x.par[CHOOSE u \in d : TRUE]>>
    ELSE IF l # {} THEN <<"exit", RandomElement(l)>>
    ELSE <<"finish", 1>>

Init == /\ x = [ st |-> [t \in T |-> IF t = 1 THEN "live" ELSE "no"], par |-> [t \in T |-> 0], held |-> [t \in T |-> {}],
                 depth |-> [t \in T |-> 0], bal |-> [s \in 1..2 |-> 0], cons |-> [s \in 1..2 |-> 0],
                 parts |-> [b \in 0..1 |-> {}], fin |-> FALSE ]
        /\ hist = << >>
Header == << <<"sem", Res, 2>> >> \o [b \in 1..2 |-> <<"bar", b - 1, IF x.parts[b-1] = {} THEN 1 ELSE Cardinality(x.parts[b-1])>>]
Next == /\ ~x.fin
        /\ IF Len(hist) < N
           THEN \E r \in {RandomElement(1..Total)} : \E t \in {RandomElement(Live)} :
                LET c == ClassOf(r) s == Chosen(c, t) IN
                IF s # {} THEN \E q \in s : hist' = hist \o q /\ x' = After(c, t, q)
                ELSE hist' = hist /\ x' = x
           ELSE LET cl == Closing IN
                IF cl[1] = "finish"
                THEN /\ x' = [x EXCEPT !.fin = TRUE]
                     /\ hist' = hist \o << <<1, "obs">>, <<1, "collect">>, <<1, "obs">> >>
                     /\ PrintT(<<"SCRIPT", ToJson(Header \o hist')>>)
                ELSE \E q \in Chosen(cl[1], cl[2]) : hist' = hist \o q /\ x' = After(cl[1], cl[2], q)
Spec == Init /\ [][Next]_vars
=============================================================================

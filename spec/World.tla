------------------------------- MODULE World --------------------------------
(* How the threads agree to stop for a collection.  There is a lock (of the   *)
(* world), a barrier whose count is the number of threads which run, a flag   *)
(* which asks them to stop, and two lists: of blocked threads, and of those   *)
(* whose variables are roots of the collection.  Each thread has a program    *)
(* of a few operations:                                                       *)
(*   C collect     Y yield      N block briefly                               *)
(*   P, W post and wait for a semaphore     L, U lock and unlock              *)
(*   B a barrier of two parties             K create, J join a thread         *)
(* Every set of programs of the given length is explored, and may be printed, *)
(* so that it can be run on the real library.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT,        \* threads
          Len1, Len2, Len3,   \* the most macros in the program of each
          Macros,    \* which ones
          Late,      \* extra barrier: others sweep on their own
          Bug,       \* a deliberate mistake, or ""
          Emitting
VARIABLES prog, ip, pc, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub
vars == <<prog, ip, pc, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
T == 1..NT

-----------------------------------------------------------------------------
(* Programs *)
Expand(m) == CASE m = "M" -> <<"L", "C", "U">> [] m = "S" -> <<"L", "Y", "U">> [] OTHER -> <<m>>
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Expand(s[1]) \o Flat(Tail(s))
UpTo(n) == UNION {[1..k -> Macros] : k \in 0..n}
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
\* the first creates the others (at the beginning, or later), and joins them
Good(s, s2, s3) ==
    \* a semaphore's posts precede waits of others, in programs which don't wait themselves; the barrier's parties are the first two
    /\ Count(s, "W") = 0 /\ Count(s2, "P") = 0 /\ Count(s3, "P") = 0
    /\ Count(s, "P") >= Count(s2, "W") + Count(s3, "W")
    /\ Count(s, "B") = Count(s2, "B") /\ Count(s3, "B") = 0 /\ (Count(s, "B") > 0 => Count(s2, "W") + Count(s3, "W") = 0)
One(s) == [k \in 1..Len(s) |-> <<s[k]>>]
\* no barrier may be passed before the others exist
MainProgs(s) ==
    LET f == One(Flat(s)) n == Len(f) IN
    {SubSeq(f, 1, c[1]) \o << <<"K", 2>> >> \o SubSeq(f, c[1] + 1, c[2]) \o (IF NT > 2 THEN << <<"K", 3>> >> ELSE << >>)
     \o SubSeq(f, c[2] + 1, n) \o << <<"J", 2>> >> \o (IF NT > 2 THEN << <<"J", 3>> >> ELSE << >>) :
     c \in {c \in (0..n) \X (0..n) : c[1] <= c[2] /\ (NT = 2 => c[2] = n) /\ \A k \in 1..c[1] : f[k] # <<"B">>}}
Programs ==
    UNION {UNION {{<<m, One(Flat(c[2])), One(Flat(c[3]))>> : m \in MainProgs(c[1])} :
                  c \in {c \in {s} \X UpTo(Len2) \X UpTo(Len3) : Good(c[1], c[2], c[3])}} : s \in UpTo(Len1)}

-----------------------------------------------------------------------------
Init == /\ prog \in {[t \in T |-> p[t]] : p \in Programs}
        /\ Emitting => PrintT(<<"SCRIPT", ToJson(prog)>>)
        /\ ip = [t \in T |-> 1]
        /\ pc = [t \in T |-> IF t = 1 THEN "next" ELSE "none"]
        /\ cont = [t \in T |-> "next"]
        /\ st = [t \in T |-> IF t = 1 THEN "live" ELSE "no"]
        /\ lock = 0 /\ stw = FALSE
        /\ count = 1 /\ bin = {} /\ bround = 0 /\ myround = [t \in T |-> 0]
        /\ blocked = {} /\ roots = {}
        /\ sem = 0 /\ mtx = 0 /\ ub = [in |-> {}, out |-> {}]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Op(t) == prog[t][ip[t]]
Same(S) == UNCHANGED S
rest == <<prog, st, blocked, roots, sem, mtx, ub>>

\* begin an operation, or end
Next1(t) ==
    /\ pc[t] = "next"
    /\ IF ip[t] > Len(prog[t])
       THEN Go(t, IF t = 1 THEN "end" ELSE "x1") /\ UNCHANGED <<ip, cont>>
       ELSE LET o == Op(t)[1] IN
            /\ Go(t, CASE o = "C" -> "c1" [] o = "Y" -> "y1" [] o \in {"N", "W", "L", "B", "J"} -> "p1" [] o = "K" -> "k1" [] OTHER -> "do")
            /\ cont' = [cont EXCEPT ![t] = "adv"]
            /\ UNCHANGED ip
    /\ UNCHANGED <<prog, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
Adv(t) == /\ pc[t] = "adv" /\ Go(t, "next") /\ ip' = [ip EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<prog, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
\* operations which don't block
Do1(t) == /\ pc[t] = "do" /\ Go(t, "adv")
          /\ CASE Op(t)[1] = "P" -> sem' = sem + 1 /\ UNCHANGED mtx
               [] Op(t)[1] = "U" -> mtx' = 0 /\ UNCHANGED sem
          /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, ub>>

\* take the world's lock; those who can't yield meanwhile (unless they mustn't)
Takes == [c1 |-> "c2", p1 |-> "p2", k1 |-> "k2", x1 |-> "x2", q1 |-> "q2"]
Mute == {"q1"} \cup (IF Bug = "pre-spins" THEN {"p1"} ELSE {}) \cup (IF Bug = "exit-spins" THEN {"x1"} ELSE {})
        \cup (IF Bug = "create-spins" THEN {"k1"} ELSE {}) \cup (IF Bug = "collect-spins" THEN {"c1"} ELSE {})
Take(t) == /\ pc[t] \in DOMAIN Takes /\ lock = 0
           /\ lock' = t /\ Go(t, Takes[pc[t]])
           /\ UNCHANGED <<prog, ip, cont, st, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
Fail(t) == /\ pc[t] \in DOMAIN Takes \ (Mute \ (IF Bug = "post-yields" THEN {"q1"} ELSE {})) /\ lock # 0
           /\ cont' = [cont EXCEPT ![t] = pc[t]] /\ Go(t, "y1")
           /\ UNCHANGED <<prog, ip, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
Free(t, from, to) == /\ pc[t] = from /\ lock' = 0 /\ Go(t, to)
                     /\ UNCHANGED <<prog, ip, cont, st, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>

\* the barrier
Arrive(t, from, wait, done) ==
    /\ pc[t] = from
    /\ IF Cardinality(bin) + 1 >= count
       THEN bin' = {} /\ bround' = (bround + 1) % 4 /\ Go(t, done) /\ UNCHANGED myround
       ELSE bin' = bin \cup {t} /\ myround' = [myround EXCEPT ![t] = bround] /\ Go(t, wait) /\ UNCHANGED bround
    /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, blocked, roots, sem, mtx, ub>>
Leave(t, wait, done) ==
    /\ pc[t] = wait /\ bround # myround[t] /\ Go(t, done)
    /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
Barrier(t, from, done) == Arrive(t, from, from \o "w", done) \/ Leave(t, from \o "w", done)
\* change the count: the barrier is replaced
Change(t, from, to, by) ==
    /\ pc[t] = from /\ count' = count + by /\ Go(t, to)
    /\ UNCHANGED <<prog, ip, cont, lock, stw, bin, bround, myround, roots, sem, mtx, ub>>

\* collecting
Step(t, from, to) == pc[t] = from /\ Go(t, to)
Collect(t) ==
    \/ /\ Step(t, "c2", "c3") /\ roots' = {t} \cup blocked
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, sem, mtx, ub>>
    \/ /\ Step(t, "c3", "b1") /\ stw' = TRUE
       /\ UNCHANGED <<prog, ip, cont, st, lock, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Barrier(t, "b1", "c4")
    \/ /\ Step(t, "c4", IF Bug = "no-second-barrier" THEN "cc" ELSE "b2") /\ stw' = (Bug = "flag-stays")
       /\ UNCHANGED <<prog, ip, cont, st, lock, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Barrier(t, "b2", "cc")
    \/ /\ Step(t, "cc", IF Bug = "unlock-first" THEN "u3" ELSE "b3")     \* the collection
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Barrier(t, "b3", IF Late THEN "cs" ELSE IF Bug = "unlock-first" THEN "adv" ELSE "c9")
    \/ /\ Step(t, "cs", "b4")     \* sweeping
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Barrier(t, "b4", "c9")
    \/ Free(t, "c9", "adv")
    \/ Free(t, "u3", "b3")
\* yielding
Yield(t) ==
    \/ /\ Step(t, "y1", IF stw THEN "y2" ELSE cont[t])
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Barrier(t, "y2", "y3")
    \/ /\ Step(t, "y3", IF Bug = "no-second-barrier" THEN "y5" ELSE "y4")
       /\ roots' = IF Bug = "roots-forgotten" THEN roots ELSE roots \cup {t}
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, sem, mtx, ub>>
    \/ Barrier(t, "y4", "y5")
    \/ Barrier(t, "y5", IF Late THEN "ys" ELSE cont[t])
    \/ /\ Step(t, "ys", "y6")
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Barrier(t, "y6", cont[t])
\* blocking
Ready(t) == LET o == Op(t) IN
            CASE o[1] = "N" -> TRUE [] o[1] = "W" -> sem > 0 [] o[1] = "L" -> mtx = 0
              [] o[1] = "J" -> st[o[2]] = "done"
              [] o[1] = "B" -> t \in ub.out \/ t \notin ub.in
Block(t) ==
    \/ /\ Change(t, "p2", IF Bug = "no-blocked-list" THEN "p4" ELSE "p3", -1) /\ UNCHANGED <<st, blocked>>
    \/ /\ Step(t, "p3", "p4") /\ blocked' = blocked \cup {t}
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, roots, sem, mtx, ub>>
    \/ Free(t, "p4", "ext")
    \/ /\ pc[t] = "ext" /\ Ready(t)
       /\ sem' = IF Op(t)[1] = "W" THEN sem - 1 ELSE sem
       /\ mtx' = IF Op(t)[1] = "L" THEN t ELSE mtx
       /\ ub' = IF Op(t)[1] # "B" THEN ub
                ELSE IF t \in ub.out THEN [ub EXCEPT !.out = @ \ {t}]
                ELSE IF ub.in = {} THEN [ub EXCEPT !.in = {t}]
                ELSE [in |-> {}, out |-> ub.out \cup ub.in]
       /\ Go(t, IF Op(t)[1] = "B" /\ t \notin ub.out /\ ub.in = {} THEN "ext" ELSE "q1")
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, blocked, roots>>
    \/ /\ Change(t, "q2", "q3", 1) /\ UNCHANGED <<st, blocked>>
    \/ /\ Step(t, "q3", "q4") /\ blocked' = blocked \ {t}
       /\ UNCHANGED <<prog, ip, cont, st, lock, stw, count, bin, bround, myround, roots, sem, mtx, ub>>
    \/ Free(t, "q4", "adv")
\* creating a thread, and ending
Life(t) ==
    \/ /\ pc[t] = "k2" /\ st' = [st EXCEPT ![Op(t)[2]] = "live"]
       /\ pc' = [pc EXCEPT ![t] = IF Bug = "create-unlocked" THEN "k4" ELSE "k3", ![Op(t)[2]] = "next"]
       /\ UNCHANGED <<prog, ip, cont, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>
    \/ Change(t, "k3", IF Bug = "create-unlocked" THEN "adv" ELSE "k4", 1) /\ UNCHANGED <<st, blocked>>
    \/ Free(t, "k4", IF Bug = "create-unlocked" THEN "k3" ELSE "adv")
    \/ Change(t, "x2", "x3", -1) /\ st' = [st EXCEPT ![t] = "gone"] /\ UNCHANGED blocked
    \/ /\ Free(t, "x3", "x4")
    \/ /\ Step(t, "x4", "over") /\ st' = [st EXCEPT ![t] = "done"]
       /\ UNCHANGED <<prog, ip, cont, lock, stw, count, bin, bround, myround, blocked, roots, sem, mtx, ub>>

Act(t) == Next1(t) \/ Adv(t) \/ Do1(t) \/ Fail(t) \/ Collect(t) \/ Yield(t) \/ Block(t) \/ Life(t)
Done == pc[1] = "end"
Next == (\E t \in T : Take(t) \/ Act(t)) \/ (Done /\ UNCHANGED vars)
Fair == \A t \in T : WF_vars(Act(t)) /\ SF_vars(Take(t))
Spec == Init /\ [][Next]_vars
Only == Init /\ [][FALSE]_vars     \* the programs
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
(* What must hold *)
\* nobody is within the barrier when it's replaced
BarrierSafe == \A t \in T : pc[t] \in {"p2", "q2", "k3", "x2"} => bin = {}
\* during a collection nothing else happens, and its roots are everybody's
Stopped(u) == pc[u] \in {"y5", "y5w"} \/ (Late /\ pc[u] \in {"ys", "y6", "y6w"}) \/ pc[u] = "y4w"
CollectSafe == \A t \in T : pc[t] = "cc" =>
                  /\ \A u \in T \ {t} : st[u] = "live" => Stopped(u) \/ u \in blocked
                  /\ roots = {u \in T : st[u] = "live"}
                  /\ lock = t
\* the others' own sweeping is over before anybody continues
SweepSafe == \A t \in T : pc[t] = "ys" =>
                \A u \in T \ {t} : st[u] = "live" =>
                    u \in blocked \/ pc[u] \in {"y5w", "ys", "y6", "y6w", "b3w", "cs", "b4", "b4w"}
\* the count is of those who run
CountRight == LET busy == \E t \in T : pc[t] \in {"p3", "p4", "q3", "q4", "k3", "x3"} IN
              (lock = 0 \/ ~busy) => count = Cardinality({t \in T : st[t] = "live"} \ blocked)
OneLocks == Cardinality({t \in T : pc[t] \in {"c2", "c3", "b1", "b1w", "c4", "b2", "b2w", "cc", "b3", "b3w", "cs", "b4", "b4w", "c9",
                                              "p2", "p3", "p4", "q2", "q3", "q4", "k2", "k3", "k4", "x2", "x3"}}) <= 1
\* everything ends
Ends == <>Done
=============================================================================

------------------------------ MODULE Barrier -------------------------------
(* The library's own barrier: a lock, a count, and two semaphores.  N threads *)
(* meet R times, and may race ahead into the next meeting.  Between meetings, *)
(* as happens when threads come and go, one of those who have left it (others *)
(* may be leaving still) replaces it; nobody arrives meanwhile.               *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, R, Replace, Bug
VARIABLES pc, lock, cur, ct, waiters, leader, i, arrived, left, gate
vars == <<pc, lock, cur, ct, waiters, leader, i, arrived, left, gate>>
T == 1..N
Init == /\ pc = [t \in T |-> "out"] /\ lock = 0 /\ cur = 0 /\ ct = N /\ waiters = 0 /\ leader = 0
        /\ i = [t \in T |-> 0] /\ arrived = [t \in T |-> 0] /\ left = [t \in T |-> 0]
        /\ gate = 1       \* meetings up to which nobody is replacing it
At(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Act(t) ==
    \/ /\ pc[t] = "out" /\ arrived[t] < R /\ (Replace => arrived[t] < gate) /\ At(t, "out", "w1")
       /\ arrived' = [arrived EXCEPT ![t] = @ + 1]
       /\ UNCHANGED <<lock, cur, ct, waiters, leader, i, left, gate>>
    \/ /\ At(t, "w1", "w2") /\ lock = 0 /\ lock' = t
       /\ UNCHANGED <<cur, ct, waiters, leader, i, arrived, left, gate>>
    \/ /\ pc[t] = "w2"
       /\ IF cur = ct - 1
          THEN At(t, "w2", "l1") /\ i' = [i EXCEPT ![t] = 0] /\ UNCHANGED cur
          ELSE At(t, "w2", "w3") /\ cur' = cur + 1 /\ UNCHANGED i
       /\ UNCHANGED <<lock, ct, waiters, leader, arrived, left, gate>>
    \/ /\ At(t, "w3", "w4") /\ lock' = 0
       /\ UNCHANGED <<cur, ct, waiters, leader, i, arrived, left, gate>>
    \/ /\ At(t, "w4", "w5") /\ waiters > 0 /\ waiters' = waiters - 1
       /\ UNCHANGED <<lock, cur, ct, leader, i, arrived, left, gate>>
    \/ /\ At(t, "w5", "out") /\ leader' = leader + 1 /\ left' = [left EXCEPT ![t] = @ + 1]
       /\ UNCHANGED <<lock, cur, ct, waiters, i, arrived, gate>>
    \/ /\ pc[t] = "l1"
       /\ IF i[t] < cur THEN waiters' = waiters + 1 /\ i' = [i EXCEPT ![t] = @ + 1] /\ pc' = pc
          ELSE pc' = [pc EXCEPT ![t] = "l2"] /\ i' = [i EXCEPT ![t] = 0] /\ UNCHANGED waiters
       /\ UNCHANGED <<lock, cur, ct, leader, arrived, left, gate>>
    \/ /\ pc[t] = "l2"
       /\ IF i[t] < cur /\ Bug # "leader-does-not-wait"
          THEN leader > 0 /\ leader' = leader - 1 /\ i' = [i EXCEPT ![t] = @ + 1] /\ pc' = pc
          ELSE pc' = [pc EXCEPT ![t] = "l3"] /\ UNCHANGED <<i, leader>>
       /\ UNCHANGED <<lock, cur, ct, waiters, arrived, left, gate>>
    \/ /\ At(t, "l3", "l4") /\ cur' = IF Bug = "not-reset" THEN cur ELSE 0
       /\ UNCHANGED <<lock, ct, waiters, leader, i, arrived, left, gate>>
    \/ /\ At(t, "l4", "out") /\ lock' = 0 /\ left' = [left EXCEPT ![t] = @ + 1]
       /\ UNCHANGED <<cur, ct, waiters, leader, i, arrived, gate>>
    \* replacing it: destroy waits for the lock
    \/ /\ Replace /\ arrived[t] = gate /\ left[t] = gate /\ gate < R /\ pc[t] = "out"
       /\ \A u \in T : pc[u] \notin {"d1", "d2", "d3"}
       /\ At(t, "out", IF Bug = "destroy-does-not-wait" THEN "d3" ELSE "d1")
       /\ UNCHANGED <<lock, cur, ct, waiters, leader, i, arrived, left, gate>>
    \/ /\ At(t, "d1", "d2") /\ lock = 0 /\ lock' = t
       /\ UNCHANGED <<cur, ct, waiters, leader, i, arrived, left, gate>>
    \/ /\ At(t, "d2", "d3") /\ lock' = 0
       /\ UNCHANGED <<cur, ct, waiters, leader, i, arrived, left, gate>>
    \/ /\ At(t, "d3", "out") /\ lock' = 0 /\ cur' = 0 /\ waiters' = 0 /\ leader' = 0 /\ gate' = gate + 1
       /\ UNCHANGED <<ct, i, arrived, left>>
Done == \A t \in T : left[t] = R /\ pc[t] = "out"
Next == (\E t \in T : Act(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Act(t))
\* nobody leaves a meeting which somebody hasn't come to
Meets == \A t, u \in T : left[t] <= arrived[u]
\* nobody uses it when it's replaced
NobodyWithin == \A t \in T : pc[t] = "d3" => \A u \in T \ {t} : pc[u] = "out"
Ends == <>Done
=============================================================================

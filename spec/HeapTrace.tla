----------------------------- MODULE HeapTrace -----------------------------
(* Checks logs recorded from the real library against Heap: each event must  *)
(* be an operation which Heap allows, with the result and observation Heap   *)
(* gives.  Every log is a behaviour of its own (tid); a log which is not a   *)
(* behaviour of Heap is reported with the first event which isn't.           *)
EXTENDS Heap, Json
CONSTANT LogFile
(* The logs are a tree of events, as they have beginnings in common: a node   *)
(* has an event (e), the nodes which may follow (c), and whether a log ends.  *)
(* The first node is the root, which has no event.                            *)
Nodes == ndJsonDeserialize(LogFile)
VARIABLES tid, h
vars == <<tid, h>>

Why(e, hs, h1) ==
    IF e.op[1] = "end" THEN IF h1.dying = 0 THEN "" ELSE "the program was not stopped"
    ELSE IF e.fin # << >> /\ e.op[1] \notin Collecting THEN "finalizer run by an operation which does not collect"
    ELSE IF hs = {} THEN "finalizer run which is not allowed"
    ELSE IF ~Can(h1, e.op) THEN "not an operation of the specification"
    ELSE IF e.op[1] # "abort" /\ MustStop(h1, e.op) THEN "the program was not stopped"
    ELSE IF e.op[1] = "steady" THEN IF ~PoolsOk(h1, e.r, e.cap, e.gens) THEN "memory grows without bound"
                                       ELSE IF "tiny" \in DOMAIN e /\ e.r > 4 * e.gens + 4 THEN "the tiny heap is not" ELSE ""
    ELSE IF e.op[1] = "mem" THEN
         LET o == After(h1.own, e.os, 1) IN
         IF o = Bad THEN "gives back memory which is not its own"
         ELSE IF ~Placed(o, e.at) THEN "objects in memory which is not its own" ELSE ""
    ELSE IF Res(h1, e.op) # e.r THEN "wrong result"
    ELSE IF e.op[1] = "collect" /\ h1.fins \cap Must(h, e.fin) # {} THEN "finalizer not run"
    ELSE IF e.op[1] = "obs" /\ ~(ObsOf(h1) = [g |-> e.g, f |-> e.f, u |-> e.u, r |-> e.v, j |-> e.j])
         THEN "variables differ"
    ELSE IF e.op[1] = "obs" /\ ~DumpOk(h1, Reach(h1), e.o) THEN "objects differ"
    ELSE ""

Reject(n, why) == PrintT(<<"REJECT", n, why>>) /\ FALSE
Init == tid = 1 /\ h = Empty
Next == \E k \in 1..Len(Nodes[tid].c) :
        LET n == Nodes[tid].c[k] e == Nodes[n].e IN
        LET hs == IF e.fin = << >> THEN {h} ELSE Runs(h, Reach(h), e.fin, 1, << >>) IN
        LET h1 == IF hs = {} THEN h ELSE CHOOSE x \in hs : TRUE IN
        LET why == Why(e, hs, h1) IN
        IF why # "" THEN Reject(n, why)
        ELSE IF Nodes[n].end /\ e.op[1] \notin {"end", "abort"} THEN Reject(n, "ends early")
        ELSE /\ tid' = n
             /\ h' = IF e.op[1] \in {"end", "abort"} THEN h
                     ELSE IF e.op[1] = "mem" THEN [h1 EXCEPT !.own = After(@, e.os, 1)]
                     ELSE Do(h1, e.op)
Spec == Init /\ [][Next]_vars
View == tid
=============================================================================

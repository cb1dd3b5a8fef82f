------------------------------ MODULE ThrTrace ------------------------------
(* Checks logs recorded from real threads against Thr. *)
EXTENDS Thr, Json
CONSTANT LogFile
(* The logs are a tree of events, as they have beginnings in common: a node   *)
(* has an event (e), the nodes which may follow (c), and whether a log ends.  *)
(* The first node is the root, which has no event.                            *)
Nodes == ndJsonDeserialize(LogFile)
VARIABLES tid, h
vars == <<tid, h>>

Reject(n, why) == PrintT(<<"REJECT", n, why>>) /\ FALSE
Init == tid = 1 /\ h = Empty
Next == \E k \in 1..Len(Nodes[tid].c) :
        LET n == Nodes[tid].c[k] e == Nodes[n].e IN
        LET why == IF e.op[1] = "begin" THEN "" ELSE Why(h, e) IN
        IF why # "" THEN Reject(n, why)
        ELSE IF Nodes[n].end /\ e.op[1] \notin {"end", "abort"} THEN Reject(n, "ends early")
        ELSE /\ tid' = n
             /\ h' = IF e.op[1] = "begin" THEN Begin(e) ELSE Do(h, e)
Spec == Init /\ [][Next]_vars
View == tid
=============================================================================

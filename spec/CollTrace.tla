----------------------------- MODULE CollTrace ------------------------------
(* Checks logs recorded from the real collections against Coll. *)
EXTENDS Coll, Json
CONSTANT LogFile
(* The logs are a tree of events, as they have beginnings in common: a node   *)
(* has an event (e), the nodes which may follow (c), and whether a log ends.  *)
(* The first node is the root, which has no event.                            *)
Nodes == ndJsonDeserialize(LogFile)
VARIABLES tid, h
vars == <<tid, h>>

\* finalizers may run for elements which the operation finds, or leaves, unreachable
FinOk(h0, h1, fin) == /\ Cardinality(Range(fin)) = Len(fin)
                      /\ Range(fin) \subseteq h0.fins \ (Live(h0) \cap Live(h1))

Why(e, h1) ==
    IF e.op[1] = "end" THEN ""
    ELSE IF ~Can(h, e.op) THEN "not an operation of the specification"
    ELSE IF ~FinOk(h, h1, e.fin) THEN "finalizer of an element in use"
    ELSE IF Res(h, e.op) # e.r THEN "wrong result"
    ELSE IF e.op[1] = "deunit" /\ e.d # h.us[e.op[2]].v THEN "wrong values"
    ELSE IF e.op[1] = "collect" /\ ~(h.fins \ Live(h) \subseteq Range(e.fin)) THEN "an unused element is kept alive"
    ELSE IF e.op[1] = "obs" THEN
        LET o == ObsOf(h) IN
        IF o.e # e.e THEN "elements differ" ELSE IF o.l # e.l THEN "lists differ"
        ELSE IF o.a # e.a THEN "arrays differ" ELSE IF o.m # e.m THEN "maps differ"
        ELSE IF o.u # e.u THEN "units differ" ELSE ""
    ELSE ""

Reject(n, why) == PrintT(<<"REJECT", n, why>>) /\ FALSE
Init == tid = 1 /\ h = Empty
Next == \E k \in 1..Len(Nodes[tid].c) :
        LET n == Nodes[tid].c[k] e == Nodes[n].e IN
        LET h1 == IF e.op[1] # "end" /\ Can(h, e.op) THEN Do(h, e.op) ELSE h IN
        LET why == Why(e, h1) IN
        IF why # "" THEN Reject(n, why)
        ELSE IF Nodes[n].end /\ e.op[1] \notin {"end"} THEN Reject(n, "ends early")
        ELSE /\ tid' = n
             /\ h' = [h1 EXCEPT !.fins = @ \ Range(e.fin)]
Spec == Init /\ [][Next]_vars
View == tid
=============================================================================

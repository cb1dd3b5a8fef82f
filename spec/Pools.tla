------------------------------- MODULE Pools --------------------------------
(* The memory which the library has from the system: a set of disjoint ranges *)
(* <<lo, hi>>, none adjacent to another.  Events are <<kind, lo, hi>>: kind 1 *)
(* when the system grants a range, 2 when the library gives one back, 3 when  *)
(* the system refuses.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

Bad == {<<-1, -1>>}
Within(own, lo, hi) == \E r \in own : r[1] <= lo /\ hi <= r[2]
Grant(own, lo, hi) ==
    LET adj == {r \in own : r[2] = lo \/ r[1] = hi}
        l == IF \E r \in adj : r[2] = lo THEN (CHOOSE r \in adj : r[2] = lo)[1] ELSE lo
        u == IF \E r \in adj : r[1] = hi THEN (CHOOSE r \in adj : r[1] = hi)[2] ELSE hi
    IN  (own \ adj) \cup {<<l, u>>}
GiveBack(own, lo, hi) ==
    IF ~Within(own, lo, hi) THEN Bad
    ELSE LET r == CHOOSE r \in own : r[1] <= lo /\ hi <= r[2]
         IN  (own \ {r}) \cup {p \in {<<r[1], lo>>, <<hi, r[2]>>} : p[1] < p[2]}
RECURSIVE After(_, _, _)
After(own, evs, i) ==
    IF i > Len(evs) \/ own = Bad THEN own
    ELSE LET e == evs[i] IN
         After(IF e[1] = 1 THEN Grant(own, e[2], e[3]) ELSE IF e[1] = 2 THEN GiveBack(own, e[2], e[3]) ELSE own, evs, i + 1)

\* the places which the library uses: each within its memory
Placed(own, at) == \A k \in 1..Len(at) : Within(own, at[k][1], at[k][2])
=============================================================================

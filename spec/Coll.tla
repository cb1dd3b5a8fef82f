-------------------------------- MODULE Coll --------------------------------
(* The collections: lists are sequences, maps are dictionaries, units are     *)
(* boxes.  Programs hold elements, lists, maps, arrays and arrays of units in *)
(* variables; elements are numbered in order of their creation, and 0 is null.*)
(* As in Heap.tla the collector is not an action.  Elements may have          *)
(* finalizers, which show what the collections keep alive.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NE == 5     \* element variables
NL == 3     \* list variables
NA == 2     \* array variables
NM == 3     \* map variables
NU == 2     \* unit array variables
K  == 2000  \* keys are 0..K-1
None == 0 - 1

Empty == [ e |-> [i \in 1..NE |-> 0],
           ls |-> [i \in 1..NL |-> 0], lists |-> << >>,   \* variables, and the lists themselves
           as |-> [i \in 1..NA |-> << >>],                \* arrays are never written
           ms |-> [i \in 1..NM |-> 0], maps |-> << >>,   \* functions from the keys which were put
           km |-> 0,                                      \* more than any key which was put
           us |-> [i \in 1..NU |-> [t |-> 0, v |-> << >>]],
           n |-> 0,                                       \* elements made
           fins |-> {} ]                                  \* elements with finalizers

-----------------------------------------------------------------------------
(* Sequences *)
Range(q) == {q[i] : i \in 1..Len(q)}
InsertAfter(q, k, x) == SubSeq(q, 1, k) \o x \o SubSeq(q, k + 1, Len(q))
RECURSIVE Every(_, _, _)
\* x inserted after each m-th element
Every(q, m, x) == IF Len(q) < m THEN q
                  ELSE SubSeq(q, 1, m) \o <<x>> \o Every(SubSeq(q, m + 1, Len(q)), m, x)
EmptyMap == [k \in {} |-> None]
Look(m, k) == IF k \in DOMAIN m THEN m[k] ELSE None
Max(x, y) == IF x > y THEN x ELSE y

\* what variables keep alive
Live(h) == ({h.e[i] : i \in 1..NE}
            \cup UNION {Range(h.lists[h.ls[i]]) : i \in {j \in 1..NL : h.ls[j] # 0}}
            \cup UNION {Range(h.as[i]) : i \in 1..NA}
            \cup UNION {{h.maps[h.ms[i]][k] : k \in DOMAIN h.maps[h.ms[i]]} : i \in {j \in 1..NM : h.ms[j] # 0}})
           \ {0, None}

List(h, v) == h.lists[h.ls[v]]
HasL(h, v) == v \in 1..NL /\ h.ls[v] # 0
HasE(x) == x \in 1..NE
HasM(h, v) == v \in 1..NM /\ h.ms[v] # 0
UTypes == 1..8
UVals == 0..9       \* the driver knows ten values of every type

Can(h, op) ==
    LET n == op[1] IN
    CASE n = "newe"      -> HasE(op[2])
      [] n = "mve"       -> HasE(op[2]) /\ HasE(op[3])
      [] n = "clre"      -> HasE(op[2])
      [] n = "newl"      -> op[2] \in 1..NL
      [] n = "mvl"       -> op[2] \in 1..NL /\ op[3] \in 1..NL
      [] n = "clrl"      -> op[2] \in 1..NL
      [] n \in {"lpush", "lunshift", "lshift"} -> HasL(h, op[2]) /\ HasE(op[3])
      \* lists are moved into other lists only
      [] n \in {"lpushl", "lunshiftl"} -> HasL(h, op[2]) /\ HasL(h, op[3]) /\ h.ls[op[2]] # h.ls[op[3]]
      [] n = "lins"      -> HasL(h, op[2]) /\ op[3] \in 1..Len(List(h, op[2])) /\ HasE(op[4])
      [] n = "linsl"     -> HasL(h, op[2]) /\ op[3] \in 1..Len(List(h, op[2])) /\ HasL(h, op[4])
                            /\ h.ls[op[2]] # h.ls[op[4]]
      [] n = "ltoarr"    -> HasL(h, op[2]) /\ op[3] \in 1..NA
      [] n = "ltrav"     -> HasL(h, op[2]) /\ op[3] >= 1 /\ HasE(op[4])
      [] n = "lfill"     -> HasL(h, op[2]) /\ op[3] >= 1
      [] n = "newm"      -> op[2] \in 1..NM /\ op[3] \in 0..4 /\ op[4] \in 0..1
      [] n = "mvm"       -> op[2] \in 1..NM /\ op[3] \in 1..NM
      [] n = "clrm"      -> op[2] \in 1..NM
      [] n = "mclone"    -> HasM(h, op[2]) /\ op[3] \in 1..NM
      [] n = "put"       -> HasM(h, op[2]) /\ op[3] \in 0..(K-1) /\ HasE(op[4])
      [] n = "get"       -> HasM(h, op[2]) /\ op[3] \in 0..(K-1) /\ HasE(op[4])
      [] n = "mfill"     -> HasM(h, op[2]) /\ op[3] \in 1..K /\ HasE(op[4])
      [] n = "mnew"      -> HasM(h, op[2]) /\ op[3] >= 0 /\ op[4] >= 1 /\ op[3] + op[4] <= K
      [] n = "newu"      -> op[2] \in 1..NU /\ op[3] \in UTypes /\ op[4] >= 0
      [] n = "uset"      -> op[2] \in 1..NU /\ op[3] \in 1..Len(h.us[op[2]].v) /\ op[4] \in UVals
      [] n = "uget"      -> op[2] \in 1..NU /\ op[3] \in 1..Len(h.us[op[2]].v)
                            /\ h.us[op[2]].v[op[3]] # None
      [] n = "ufill"     -> op[2] \in 1..NU /\ h.us[op[2]].t # 0 /\ op[3] \in UVals
      [] n = "deunit"    -> op[3] >= 1 /\ op[2] \in 1..NU /\ h.us[op[2]].t # 0 /\ None \notin Range(h.us[op[2]].v)
      [] n = "fin"       -> HasE(op[2]) /\ h.e[op[2]] # 0 /\ h.e[op[2]] \notin h.fins
      [] n \in {"collect", "churn", "obs"} -> TRUE
      [] OTHER           -> FALSE

SetM(h, v, m, to) == [h EXCEPT !.maps[h.ms[v]] = m @@ @, !.km = Max(@, to)]
SetL(h, v, q) == [h EXCEPT !.lists[h.ls[v]] = q]
Do(h, op) ==
    LET n == op[1] IN
    CASE n = "newe"      -> [h EXCEPT !.n = @ + 1, !.e[op[2]] = h.n + 1]
      [] n = "mve"       -> [h EXCEPT !.e[op[2]] = h.e[op[3]]]
      [] n = "clre"      -> [h EXCEPT !.e[op[2]] = 0]
      [] n = "newl"      -> [h EXCEPT !.lists = Append(@, << >>), !.ls[op[2]] = Len(h.lists) + 1]
      [] n = "mvl"       -> [h EXCEPT !.ls[op[2]] = h.ls[op[3]]]
      [] n = "clrl"      -> [h EXCEPT !.ls[op[2]] = 0]
      [] n = "lpush"     -> SetL(h, op[2], Append(List(h, op[2]), h.e[op[3]]))
      [] n = "lunshift"  -> SetL(h, op[2], <<h.e[op[3]]>> \o List(h, op[2]))
      [] n = "lshift"    -> LET q == List(h, op[2]) IN
                            IF q = << >> THEN [h EXCEPT !.e[op[3]] = 0]
                            ELSE [SetL(h, op[2], Tail(q)) EXCEPT !.e[op[3]] = Head(q)]
      [] n = "lpushl"    -> SetL(SetL(h, op[2], List(h, op[2]) \o List(h, op[3])), op[3], << >>)
      [] n = "lunshiftl" -> SetL(SetL(h, op[2], List(h, op[3]) \o List(h, op[2])), op[3], << >>)
      [] n = "lins"      -> SetL(h, op[2], InsertAfter(List(h, op[2]), op[3], <<h.e[op[4]]>>))
      [] n = "linsl"     -> SetL(SetL(h, op[2], InsertAfter(List(h, op[2]), op[3], List(h, op[4]))), op[4], << >>)
      [] n = "ltoarr"    -> [h EXCEPT !.as[op[3]] = List(h, op[2])]
      [] n = "ltrav"     -> SetL(h, op[2], Every(List(h, op[2]), op[3], h.e[op[4]]))
      [] n = "lfill"     -> [SetL(h, op[2], List(h, op[2]) \o [i \in 1..op[3] |-> h.n + i]) EXCEPT !.n = h.n + op[3]]
      [] n = "newm"      -> [h EXCEPT !.maps = Append(@, EmptyMap), !.ms[op[2]] = Len(h.maps) + 1]
      [] n = "mvm"       -> [h EXCEPT !.ms[op[2]] = h.ms[op[3]]]
      [] n = "clrm"      -> [h EXCEPT !.ms[op[2]] = 0]
      [] n = "mclone"    -> [h EXCEPT !.maps = Append(@, h.maps[h.ms[op[2]]]), !.ms[op[3]] = Len(h.maps) + 1]
      [] n = "put"       -> SetM(h, op[2], op[3] :> h.e[op[4]], op[3] + 1)
      [] n = "get"       -> LET v == Look(h.maps[h.ms[op[2]]], op[3]) IN
                            IF v = None THEN h ELSE [h EXCEPT !.e[op[4]] = v]
      [] n = "mfill"     -> SetM(h, op[2], [k \in 0..(op[3]-1) |-> h.e[op[4]]], op[3])
      \* a new element for each of many keys
      [] n = "mnew"      -> [SetM(h, op[2], [k \in op[3]..(op[3]+op[4]-1) |-> h.n + 1 + k - op[3]], op[3] + op[4])
                             EXCEPT !.n = @ + op[4]]
      [] n = "newu"      -> [h EXCEPT !.us[op[2]] = [t |-> op[3], v |-> [i \in 1..op[4] |-> None]]]
      [] n = "uset"      -> [h EXCEPT !.us[op[2]].v[op[3]] = op[4]]
      \* the values in turn, from one of them
      [] n = "ufill"     -> [h EXCEPT !.us[op[2]].v = [i \in DOMAIN @ |-> (op[3] + i - 1) % 10]]
      [] n = "fin"       -> [h EXCEPT !.fins = @ \cup {h.e[op[2]]}]
      [] OTHER           -> h

Res(h, op) ==
    LET n == op[1] IN
    CASE n \in {"newe", "lfill", "mnew"} -> h.n + 1
      [] n = "lshift" -> IF List(h, op[2]) = << >> THEN 0 ELSE Head(List(h, op[2]))
      [] n = "get"    -> Look(h.maps[h.ms[op[2]]], op[3])
      [] n = "uget"   -> h.us[op[2]].v[op[3]]
      [] OTHER        -> 0

\* a complete observation
ObsOf(h) == [ e |-> h.e,
              l |-> [i \in 1..NL |-> IF h.ls[i] = 0 THEN <<None>> ELSE List(h, i)],
              a |-> h.as,
              m |-> [i \in 1..NM |-> IF h.ms[i] = 0 THEN << >>
                                     ELSE [k \in 1..(h.km + 2) |-> Look(h.maps[h.ms[i]], k - 1)]],
              u |-> [i \in 1..NU |-> h.us[i].v] ]
=============================================================================

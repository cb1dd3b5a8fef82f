------------------------------ MODULE CollGen -------------------------------
(* Generates programs: random behaviours of Coll, printed as scripts. *)
EXTENDS Coll, Json
CONSTANTS W, N, Fin, Big     \* Big: the longest list, and one more than the largest key
VARIABLES h, hist
vars == <<h, hist>>

Total == LET RECURSIVE S(_)
             S(i) == IF i = 0 THEN 0 ELSE W[i][2] + S(i-1)
         IN S(Len(W))
ClassOf(r) == LET RECURSIVE F(_, _)
                  F(i, x) == IF x <= W[i][2] THEN W[i][1] ELSE F(i+1, x - W[i][2])
              IN F(1, r)
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* (depending on the state, lest it be chosen once and for all)
E == One({v \in 1..NE : Len(hist) >= 0})
L(x) == One({v \in 1..NL : HasL(x, v)})
L2(x, v) == One({w \in 1..NL : HasL(x, w) /\ x.ls[w] # x.ls[v]})
M(x) == One({v \in 1..NM : HasM(x, v)})
\* keys: mostly from a few, so that they meet again
Key == One(IF RandomElement({v \in 1..3 : Len(hist) >= 0}) = 1 THEN 0..(Big-1) ELSE 0..11)
Small(x, v) == Len(List(x, v)) < Big

Chosen(x, c) ==
    CASE c = "newe" -> {<<"newe", a>> : a \in E}
      [] c = "mve" -> {<<"mve", a, b>> : a \in E, b \in E}
      [] c = "clre" -> {<<"clre", a>> : a \in E}
      [] c = "newl" -> {<<"newl", v>> : v \in One(1..NL)}
      [] c = "mvl" -> {<<"mvl", v, w>> : v \in One(1..NL), w \in One(1..NL)}
      [] c = "clrl" -> {<<"clrl", v>> : v \in One(1..NL)}
      [] c \in {"lpush", "lunshift"} -> {<<c, v, a>> : v \in {w \in L(x) : Small(x, w)}, a \in E}
      [] c = "lshift" -> {<<c, v, a>> : v \in L(x), a \in E}
      [] c \in {"lpushl", "lunshiftl"} -> UNION {{<<c, v, w>> : w \in L2(x, v)} : v \in L(x)}
      [] c = "lins" -> UNION {{<<c, v, k, a>> : k \in One(1..Len(List(x, v))), a \in E} : v \in {w \in L(x) : Small(x, w)}}
      [] c = "linsl" -> UNION {{<<c, v, k, w>> : k \in One(1..Len(List(x, v))), w \in L2(x, v)} : v \in L(x)}
      [] c = "ltoarr" -> {<<c, v, a>> : v \in L(x), a \in One(1..NA)}
      [] c = "ltrav" -> {<<c, v, m, a>> : v \in {w \in L(x) : Len(List(x, w)) < 100}, m \in One(1..3), a \in E}
      [] c = "lfill" -> {<<c, v, n>> : v \in {w \in L(x) : Small(x, w)}, n \in One({3, 20, Big \div 2})}
      [] c = "newm" -> {<<c, v, k, t>> : v \in One(1..NM), k \in One(0..4), t \in One(0..1)}
      [] c = "mvm" -> {<<c, v, w>> : v \in One(1..NM), w \in One(1..NM)}
      [] c = "clrm" -> {<<c, v>> : v \in One(1..NM)}
      [] c = "mclone" -> {<<c, v, w>> : v \in M(x), w \in One(1..NM)}
      [] c = "put" -> {<<c, v, k, a>> : v \in M(x), k \in Key, a \in E}
      [] c = "get" -> {<<c, v, k, a>> : v \in M(x), k \in Key, a \in E}
      [] c = "mfill" -> {<<c, v, k, a>> : v \in M(x), k \in One({5, 20, 59, Big}), a \in E}
      [] c = "mnew" -> {<<c, v, k, n>> : v \in M(x), k \in One(0..(Big \div 2)), n \in One({5, 30, 60, Big \div 2})}
      [] c = "newu" -> {<<c, u, t, n>> : u \in One(1..NU), t \in One(UTypes), n \in One({0, 1, 2, 3, 10, 40, IF Big > 300 THEN 300 ELSE 70})}
      [] c = "uset" -> UNION {{<<c, u, k, z>> : k \in One(1..Len(x.us[u].v)), z \in One(UVals)} : u \in One(1..NU)}
      [] c = "uget" -> UNION {{<<c, u, k>> : k \in One({j \in 1..Len(x.us[u].v) : x.us[u].v[j] # None})} : u \in One(1..NU)}
      [] c = "ufill" -> {<<c, u, z>> : u \in One({y \in 1..NU : x.us[y].t # 0}), z \in One(UVals)}
      [] c = "deunit" -> {<<c, u, z>> : z \in One({1, 2, 5, 60, 200}), u \in One({y \in 1..NU : x.us[y].t # 0 /\ None \notin Range(x.us[y].v)})}
      [] c = "fin" -> IF Fin THEN {<<c, a>> : a \in One({b \in 1..NE : x.e[b] # 0 /\ x.e[b] \notin x.fins})} ELSE {}
      [] c = "churn" -> {<<"churn", k, 1>> : k \in One(0..2)}
      [] c = "collect" -> {<<"collect">>}
      [] OTHER -> {<<"obs">>}

Op(x, c) == LET s == Chosen(x, c) IN
            IF s # {} THEN s
            ELSE One(UNION {Chosen(x, d) : d \in {"newe"} \cup (IF c \in {"lpush", "lunshift", "lshift", "lpushl",
                                                     "lunshiftl", "lins", "linsl", "ltoarr", "ltrav"} THEN {"newl"}
                                                  ELSE IF c \in {"put", "get", "mclone", "mfill", "mnew"} THEN {"newm"}
                                                  ELSE IF c \in {"uset", "uget", "deunit", "ufill"} THEN {"newu", "uset"} ELSE {})})

Init == h = Empty /\ hist = << >>
Next == /\ Len(hist) < N
        /\ \E r \in {RandomElement(1..Total)} :
           \E op \in Op(h, ClassOf(r)) :
              LET op1 == IF Len(hist) = N - 1 THEN <<"obs">> ELSE op
              IN  /\ Assert(Can(h, op1), <<"generator", op1>>)
                  /\ h' = Do(h, op1)
                  /\ hist' = Append(hist, op1)
        /\ Len(hist') = N => PrintT(<<"SCRIPT", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
=============================================================================

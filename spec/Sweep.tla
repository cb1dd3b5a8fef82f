------------------------------- MODULE Sweep --------------------------------
(* The heap of the mark-and-sweep collector: a pool of C words, tiled by      *)
(* objects and free nodes, and the list of free nodes, from which objects are *)
(* allocated (first fit; what remains must be able to be a node itself).      *)
(* Objects are held by variables; a collection frees the others, joins what   *)
(* is free, and makes the list anew.  Allocation collects when it must.       *)
(* `hist` is the program so far, as in Gembc.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS C, NR, Sizes, Bug, Emitting
VARIABLES tiles, list, var, hist
vars == <<tiles, list, var, hist>>
View == <<tiles, list, var>>
Node == 3        \* words of a free node
\* tiles: a sequence of [at, size, st], with st "used" or "free"; var: which place each variable refers to (-1: none)

Init == /\ tiles = << [at |-> 0, size |-> C, st |-> "free"] >>
        /\ list = <<0>> /\ var = [v \in 1..NR |-> -1] /\ hist = << >>
Tile(ts, a) == CHOOSE i \in 1..Len(ts) : ts[i].at = a
Fits(n, s) == n = s \/ (IF Bug = "split-small" THEN n > s ELSE n >= s + 4)
FirstFit(ts, l, s) == LET k == {i \in 1..Len(l) : Fits(ts[Tile(ts, l[i])].size, s)}
                      IN  IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
Replace(q, i, new) == SubSeq(q, 1, i - 1) \o new \o SubSeq(q, i + 1, Len(q))
\* the heap after allocating s words by the i-th node of the list
Alloc(ts, l, i, s) ==
    LET t == Tile(ts, l[i]) n == ts[t] IN
    IF n.size = s
    THEN [ts |-> Replace(ts, t, << [n EXCEPT !.st = "used"] >>),
          l |-> IF Bug = "exact-stays" THEN l ELSE Replace(l, i, << >>)]
    ELSE [ts |-> Replace(ts, t, << [at |-> n.at, size |-> s, st |-> "used"], [at |-> n.at + s, size |-> n.size - s, st |-> "free"] >>),
          l |-> Replace(l, i, IF Bug = "rest-lost" THEN << >> ELSE <<n.at + s>>)]
RECURSIVE Join(_, _)
\* tiles, of which those at `keep` are used, joined where they are free
Join(ts, keep) ==
    IF ts = << >> THEN << >>
    ELSE LET r == Join(Tail(ts), keep) t == ts[1] IN
         IF t.at \in keep THEN << t >> \o r
         ELSE IF Bug # "no-join" /\ r # << >> /\ r[1].st = "free"
         THEN << [at |-> t.at, size |-> t.size + r[1].size, st |-> "free"] >> \o Tail(r)
         ELSE << [t EXCEPT !.st = "free"] >> \o r
Held == {var[v] : v \in 1..NR} \ {-1}
Swept(ts) == Join(ts, Held)
RECURSIVE FreeOf(_)
FreeOf(ts) == IF ts = << >> THEN << >> ELSE (IF ts[1].st = "free" THEN <<ts[1].at>> ELSE << >>) \o FreeOf(Tail(ts))

New(v, s) ==
    /\ var[v] = -1
    /\ \E h \in {LET i == FirstFit(tiles, list, s) IN
                 IF i # 0 THEN [ts |-> tiles, l |-> list, i |-> i]
                 ELSE LET ts == Swept(tiles) l == FreeOf(ts) IN [ts |-> ts, l |-> l, i |-> FirstFit(ts, l, s)]} :
          /\ h.i # 0
          /\ var' = [var EXCEPT ![v] = h.l[h.i]]
          /\ LET a == Alloc(h.ts, h.l, h.i, s) IN tiles' = a.ts /\ list' = a.l
    /\ hist' = Append(hist, <<"alloc", s, v>>)
Drop(v) == /\ var[v] # -1 /\ var' = [var EXCEPT ![v] = -1] /\ UNCHANGED <<tiles, list>>
           /\ hist' = Append(hist, <<"clr", 1, v>>)
Collect == /\ tiles' = Swept(tiles) /\ list' = FreeOf(Swept(tiles)) /\ UNCHANGED var
           /\ hist' = Append(hist, <<"collect">>)
Next == Collect \/ \E v \in 1..NR : Drop(v) \/ \E s \in Sizes : New(v, s)
Spec == Init /\ [][Next]_vars

\* every word is in one tile
Covered == /\ tiles[1].at = 0 /\ tiles[Len(tiles)].at + tiles[Len(tiles)].size = C
           /\ \A i \in 1..(Len(tiles) - 1) : tiles[i + 1].at = tiles[i].at + tiles[i].size
\* what is free is in the list, once, and nothing else is
Listed == /\ {list[i] : i \in 1..Len(list)} = {tiles[i].at : i \in {j \in 1..Len(tiles) : tiles[j].st = "free"}}
          /\ Cardinality({list[i] : i \in 1..Len(list)}) = Len(list)
\* what a variable refers to is in use, and by no other
Disjoint == /\ \A v \in 1..NR : var[v] # -1 => \E i \in 1..Len(tiles) : tiles[i].at = var[v] /\ tiles[i].st = "used"
            /\ \A v, u \in 1..NR : var[v] # -1 /\ v # u => var[v] # var[u]
NodesFit == \A i \in 1..Len(tiles) : tiles[i].st = "free" => tiles[i].size >= Node
\* when nothing is held, a collection leaves one node
Joined == (Held = {} /\ hist # << >> /\ hist[Len(hist)][1] = "collect") => Len(tiles) = 1
Emit == Emitting => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

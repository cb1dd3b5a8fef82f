------------------------------ MODULE Compact -------------------------------
(* Compaction of a pool in place, word by word.  A pool of C words starts as  *)
(* any sequence of objects, each reachable or not, and then free words.       *)
(* First the sizes of the chunks are written into the words which nobody      *)
(* needs (Count); then each chunk slides down, while the table which tells    *)
(* where chunks were (Bel words per entry) is rolled along in the gap, and    *)
(* sorted; and then every object is looked up.                                *)
(*                                                                            *)
(* Layouts are printed as programs: the objects of a pool, and those which    *)
(* are dropped; see `dress`.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS C,          \* words
          MinSize, MaxSize,
          Bug, Emitting
VARIABLES objs,   \* <<[at, size, live]>>, in order
          ph, w, first, free, cur, fch, bt, btEnd, table
vars == <<objs, ph, w, first, free, cur, fch, bt, btEnd, table>>
Bel == 2

RECURSIVE Layouts(_)
\* layouts of the words from `at` on
Layouts(at) == {<< >>} \cup UNION {{<<[at |-> at, size |-> s, live |-> l]>> \o r : l \in BOOLEAN, r \in Layouts(at + s)} :
                                   s \in {k \in MinSize..MaxSize : at + k <= C}}
End(o) == IF o = << >> THEN 0 ELSE o[Len(o)].at + o[Len(o)].size
Word(o, a) == IF \E i \in 1..Len(o) : o[i].at <= a /\ a < o[i].at + o[i].size
              THEN LET i == CHOOSE i \in 1..Len(o) : o[i].at <= a /\ a < o[i].at + o[i].size IN <<"o", i, a - o[i].at>>
              ELSE <<"x", 0, 0>>
LiveAt(o, a) == \E i \in 1..Len(o) : o[i].live /\ o[i].at <= a /\ a < o[i].at + o[i].size

(* the chunks from a on which are reachable (or not): where it ends *)
RECURSIVE ChunkEnd(_, _, _)
ChunkEnd(o, a, live) ==
    IF a >= End(o) \/ LiveAt(o, a) # live THEN a
    ELSE LET i == CHOOSE i \in 1..Len(o) : o[i].at = a IN ChunkEnd(o, a + o[i].size, live)
Put(m, a, v) == [m EXCEPT ![a] = v]
RECURSIVE CountFrom(_, _, _)
\* from a, where an unused chunk begins
CountFrom(o, m, a) ==
    LET e == ChunkEnd(o, a, FALSE)
        e1 == IF e >= End(o) THEN C ELSE e
        m1 == Put(m, a, <<"n", e1 - a, 0>>)
    IN  IF e1 >= C THEN m1
        ELSE LET u == ChunkEnd(o, e1, TRUE)
                 m2 == Put(m1, e1 - 1, <<"n", u - e1, 0>>)
             IN  IF u >= C THEN m2 ELSE CountFrom(o, m2, u)

Init == /\ objs \in Layouts(0)
        /\ ph = "count" /\ w = [a \in 0..(C-1) |-> Word(objs, a)]
        /\ first = 0 /\ free = 0 /\ cur = 0 /\ fch = 0 /\ bt = 0 /\ btEnd = 0 /\ table = << >>
CountUsed ==
    /\ ph = "count"
    /\ LET a == ChunkEnd(objs, 0, TRUE)
       IN  /\ first' = a
           /\ w' = IF a >= C THEN w ELSE CountFrom(objs, w, a)
           /\ free' = a /\ cur' = a
           /\ IF a >= C THEN ph' = "sort" /\ UNCHANGED <<bt, btEnd, fch>>
              ELSE /\ ph' = "chunk" /\ bt' = a /\ btEnd' = a
                   /\ fch' = IF w'[a][1] = "n" THEN w'[a][2] ELSE -1
    /\ UNCHANGED <<objs, table>>
(* one chunk: its words go to `free`, but first the entries there move out of *)
(* the way, to the end of the table                                           *)
RECURSIVE Slide(_, _, _, _, _, _, _)
Slide(m, i, ch, from, to, b, e) ==
    IF i >= ch THEN [m |-> m, b |-> b, e |-> e]
    ELSE IF b + Bel > C \/ e + Bel > C THEN [m |-> m, b |-> -1, e |-> e]
    ELSE LET m1 == IF Bug = "no-roll" THEN m
                   ELSE [a \in DOMAIN m |-> IF a >= e /\ a < e + Bel THEN m[b + a - e] ELSE m[a]]
             n  == IF Bug = "past-end" THEN Bel ELSE IF ch - i < Bel THEN ch - i ELSE Bel
             m2 == [a \in DOMAIN m |-> IF a >= to + i /\ a < to + i + n /\ from + a - to < C THEN m1[from + a - to] ELSE m1[a]]
         IN  Slide(m2, i + Bel, ch, from, to, b + Bel, e + Bel)
Chunk ==
    /\ ph = "chunk"
    /\ LET c == cur + fch IN
       IF fch < 1 THEN ph' = "bad" /\ UNCHANGED <<w, free, cur, fch, bt, btEnd>>
       ELSE IF c >= C THEN ph' = "sort" /\ UNCHANGED <<w, free, cur, fch, bt, btEnd>>
       ELSE IF w[c - 1][1] # "n" THEN ph' = "bad" /\ UNCHANGED <<w, free, cur, fch, bt, btEnd>>
       ELSE LET ch == w[c - 1][2]
                nf == IF c + ch < C THEN w[c + ch][2] ELSE 0
                s  == Slide(w, 0, ch, c, free, bt, btEnd)
            IN  IF s.b < 0 \/ s.e + Bel > C THEN ph' = "bad" /\ UNCHANGED <<w, free, cur, fch, bt, btEnd>>
                ELSE /\ w' = [a \in DOMAIN w |-> IF a = s.e THEN <<"from", c, 0>> ELSE IF a = s.e + 1 THEN <<"to", free, 0>> ELSE s.m[a]]
                     /\ bt' = s.b /\ btEnd' = s.e + Bel
                     /\ free' = free + ch /\ cur' = c + ch /\ fch' = nf
                     /\ ph' = IF c + ch >= C THEN "sort" ELSE "chunk"
    /\ UNCHANGED <<objs, first, table>>
Entry(a) == <<w[a], w[a + 1]>>
Sort ==
    /\ ph = "sort"
    /\ LET n  == (btEnd - bt) \div Bel
           es == [i \in 1..n |-> Entry(bt + Bel * (i - 1))]
       IN  IF \E i \in 1..n : es[i][1][1] # "from" \/ es[i][2][1] # "to" THEN ph' = "bad" /\ UNCHANGED table
           ELSE /\ ph' = "done"
                /\ table' = IF Bug = "no-sort" THEN [i \in 1..n |-> <<es[i][1][2], es[i][2][2]>>]
                            ELSE LET ks == {es[i][1][2] : i \in 1..n}
                                     Nth(i) == CHOOSE k \in ks : Cardinality({j \in ks : j < k}) = i - 1
                                     Of(k) == CHOOSE i \in 1..n : es[i][1][2] = k
                                 IN  [i \in 1..Cardinality(ks) |-> <<Nth(i), es[Of(Nth(i))][2][2]>>]
    /\ UNCHANGED <<objs, w, first, free, cur, fch, bt, btEnd>>
Next == CountUsed \/ Chunk \/ Sort
Spec == Init /\ [][Next]_vars

(* the binary search; -1 if it does not end *)
RECURSIVE Search(_, _, _, _, _)
Search(t, loc, c, step, n) ==
    LET half(x) == IF x \div 2 = 0 THEN 1 ELSE x \div 2 IN
    IF n = 0 THEN -1
    ELSE IF t[c + 1][1] <= loc
    THEN IF c = Len(t) - 1 \/ t[c + 2][1] > loc THEN c + 1
         ELSE Search(t, loc, IF c + step >= Len(t) THEN Len(t) - 1 ELSE c + step, half(step), n - 1)
    ELSE IF c = 0 THEN 0
         ELSE Search(t, loc, IF step > c THEN 0 ELSE c - step, half(step), n - 1)
Find(t, loc) == IF t = << >> THEN 0
                ELSE Search(t, loc, Len(t) \div 2, IF (Len(t) \div 2) \div 2 = 0 THEN 1 ELSE (Len(t) \div 2) \div 2, 4 * Len(t) + 4)
NewAt(loc) == LET f == Find(table, loc) IN IF f = 0 THEN loc ELSE IF f < 0 THEN -1 ELSE loc - (table[f][1] - table[f][2])

Sum(S) == LET RECURSIVE G(_) G(X) == IF X = {} THEN 0 ELSE LET i == CHOOSE i \in X : TRUE IN objs[i].size + G(X \ {i}) IN G(S)
Live == {i \in 1..Len(objs) : objs[i].live}
\* nothing of use was overwritten
Never == ph # "bad"
\* each object is where it is said to be, with all its words, in order, and what is free is free
Slid == ph = "done" =>
          /\ free = Sum(Live)
          /\ \A i \in Live : LET a == NewAt(objs[i].at) IN
                /\ a = Sum({j \in Live : j < i})
                /\ \A k \in 0..(objs[i].size - 1) : w[a + k] = <<"o", i, k>>
\* each search ends, also for what was not reachable
Ends == ph = "done" => \A i \in 1..Len(objs) : NewAt(objs[i].at) # -1
Emit == (Emitting /\ ph = "count") => PrintT(<<"SCRIPT", ToJson([i \in 1..Len(objs) |-> <<objs[i].size, IF objs[i].live THEN 1 ELSE 0>>])>>)
=============================================================================

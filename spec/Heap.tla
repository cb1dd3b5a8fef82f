-------------------------------- MODULE Heap --------------------------------
(* What a program using GGGGC sees of its heap: the abstract semantics of the *)
(* library's interface.  Garbage collection is *not* an action here: it is a  *)
(* stuttering step of this specification, and that is precisely what the      *)
(* collector promises (G01).  The heap state is a record `h`, and every       *)
(* operation `op` of the interface is given by                                *)
(*    Can(h, op)      may a program perform it (its preconditions)            *)
(*    Do(h, op)       the state afterwards                                    *)
(*    Res(h, op)      what the operation returns                              *)
(* Finalizers are the one place where collection is visible: see Fin below.   *)
(*                                                                            *)
(* Values in references: 0 null; i > 0 the object numbered i; i < 0 a tagged  *)
(* immediate (internal tagging), which names no object.                       *)
(* Objects are numbered in order of their allocation; the number is the       *)
(* object's identity.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Pools

-----------------------------------------------------------------------------
(* The static types the programs use: number of reference members p, of data *)
(* members d, and whether each is also usable as an array (number = index)   *)
Types == << [n |-> "Leaf",  p |-> 0, d |-> 0],
            [n |-> "One",   p |-> 1, d |-> 0],
            [n |-> "Pair",  p |-> 2, d |-> 1],
            [n |-> "Mixed", p |-> 3, d |-> 3],
            [n |-> "Big",   p |-> 4, d |-> 2],
            [n |-> "Data",  p |-> 0, d |-> 4] >>
NTypes == 6
\* the other kinds of objects
TPA   == 10     \* array of references
TDA   == 11     \* array of data, words
TCA   == 12     \* array of data, bytes
TDD   == 13     \* array of data, doubles
TDesc == 14     \* a type created at run time (a descriptor): one reference, its user pointer
TDyn  == 15     \* an object of such a type: p[1] is its descriptor
TBlob == 16     \* a large structure: see the driver. p[1] hangs on its far end
TBoxed == 17
TDS   == 18     \* array of data, structures of 12 bytes
IsArr(t) == t \in {TPA, TDA, TCA, TDD, TDS}
DynPtrs == 4    \* reference members of a TDyn which programs use (at p[2..5])

Empty == [ objs  |-> << >>,      \* every object ever allocated
           frames |-> << >>,     \* the pushed frames of variables, a stack
           globs |-> << >>,      \* globalized variables
           plain |-> {},         \* the run-time types whose objects have no references
          ups   |-> [t \in 1..NTypes |-> 0],   \* user pointers of the static types
           jit   |-> << >>,      \* the JIT pointer stack, bottom first
           fins  |-> {},         \* registered finalizers <<registration, object, kind>>
           nfin  |-> 0,
           res   |-> 0,          \* the variable which finalizers resurrect objects into
           dying |-> 0,          \* the library must now stop the program: 1 out of memory
           own   |-> {},         \* the memory obtained from the system: see Pools
           lim   |-> FALSE,      \* whether the system refuses to give more memory
           calm  |-> {},         \* <<k, words>>: steady k was done when there were so many words
           try   |-> -1,         \* steady k was begun while the system refuses
           corr  |-> {} ]        \* objects whose guard word was overwritten

Zeros(n) == [i \in 1..n |-> 0]

\* bounds for the words of an object, and of all objects ever
Words(o) == IF o.t = TDS THEN 2 * o.l + 16
            ELSE IF IsArr(o.t) THEN o.l + 16
            ELSE IF o.t = TBlob THEN 12 * o.l + 64
            ELSE IF o.t = TDesc THEN 40
            ELSE IF o.t = TDyn THEN 600 ELSE IF o.t = 5 THEN 100 ELSE 16
AllWords(h) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Words(h.objs[i]) + S(i-1)
               IN S(Len(h.objs))

-----------------------------------------------------------------------------
(* Variables: slot <<0,s>> is global s, <<f,s>> variable s of frame f,       *)
(* <<-1,s>> JIT stack word s, counted from the bottom                        *)
HasSlot(h, f, s) ==
    \/ f = 0 /\ s \in 1..Len(h.globs)
    \/ f \in 1..Len(h.frames) /\ s \in 1..Len(h.frames[f])
    \/ f = -1 /\ s \in 1..Len(h.jit) /\ h.jit[s].ref
Get(h, f, s) == IF f = 0 THEN h.globs[s]
                ELSE IF f = -1 THEN h.jit[s].v ELSE h.frames[f][s]
Set(h, f, s, v) == IF f = 0 THEN [h EXCEPT !.globs[s] = v]
                   ELSE IF f = -1 THEN [h EXCEPT !.jit[s].v = v]
                   ELSE [h EXCEPT !.frames[f][s] = v]
IsObj(h, v) == v \in 1..Len(h.objs)
ObjAt(h, f, s) == HasSlot(h, f, s) /\ IsObj(h, Get(h, f, s))
TypeAt(h, f, s) == h.objs[Get(h, f, s)].t

\* which references of an object programs may write, and read
PFirst(o) == IF o.t = TDyn THEN 2 ELSE 1

-----------------------------------------------------------------------------
(* Reachability *)
Range(q) == {q[i] : i \in 1..Len(q)}
Refs(S) == {v \in S : v > 0}
RootVals(h) == (UNION {Range(h.frames[f]) : f \in 1..Len(h.frames)})
               \cup Range(h.globs) \cup Range(h.ups) \cup {h.res}
               \cup {h.jit[i].v : i \in {j \in 1..Len(h.jit) : h.jit[j].ref}}
RECURSIVE Close(_, _, _)
Close(objs, front, seen) ==
    IF front = {} THEN seen
    ELSE LET next == Refs(UNION {Range(objs[i].p) : i \in front}) \ seen
         IN  Close(objs, next, seen \cup next)
Closure(h, S) == LET r == Refs(S) IN Close(h.objs, r, r)
Reach(h) == Closure(h, RootVals(h))

-----------------------------------------------------------------------------
(* Operations.  op is a sequence: a name, then numbers.                      *)
NewObj(h, o, f, s) == Set([h EXCEPT !.objs = Append(@, o)], f, s, Len(h.objs) + 1)
Obj(t, np, nd, len) == [t |-> t, p |-> Zeros(np), d |-> Zeros(nd), l |-> len]

PushFrame(h, n) == [h EXCEPT !.frames = Append(@, Zeros(n))]

RECURSIVE Can(_, _)
Can(h, op) ==
    LET n == op[1] IN
    CASE n \in {"new"}   -> op[2] \in 1..NTypes /\ HasSlot(h, op[3], op[4])
      [] n = "newpa"     -> op[2] >= 0 /\ HasSlot(h, op[3], op[4])
      [] n = "newda"     -> op[2] \in {TDA, TCA, TDD, TDS} /\ op[3] >= 0 /\ HasSlot(h, op[4], op[5])
      [] n = "blob"      -> op[2] \in 0..3 /\ op[3] >= 1 /\ HasSlot(h, op[4], op[5])
      \* every other part of a large structure goes
      [] n = "thin"      -> ObjAt(h, op[2], op[3]) /\ TypeAt(h, op[2], op[3]) = TBlob
                            /\ h.objs[Get(h, op[2], op[3])].d[1] < 12
      [] n = "desc"      -> HasSlot(h, op[4], op[5])
      [] n = "newd"      -> ObjAt(h, op[2], op[3]) /\ TypeAt(h, op[2], op[3]) = TDesc
                            /\ HasSlot(h, op[4], op[5])
      \* wp f s t m vf vs: write a reference member (or element)
      [] n = "wp"        -> /\ ObjAt(h, op[2], op[3]) /\ HasSlot(h, op[6], op[7])
                            /\ LET o == h.objs[Get(h, op[2], op[3])]
                               IN  o.t = op[4] /\ op[5] \in PFirst(o)..Len(o.p) /\ o.t # TDesc
      [] n = "wn"        -> /\ ObjAt(h, op[2], op[3])
                            /\ LET o == h.objs[Get(h, op[2], op[3])]
                               IN  o.t = op[4] /\ op[5] \in PFirst(o)..Len(o.p) /\ o.t # TDesc
      [] n = "rp"        -> /\ ObjAt(h, op[2], op[3]) /\ HasSlot(h, op[6], op[7])
                            /\ LET o == h.objs[Get(h, op[2], op[3])]
                               IN  o.t = op[4] /\ op[5] \in PFirst(o)..Len(o.p) /\ o.t # TDesc
      \* cp f s t m f2 s2 t2 m2: from a reference member to another (of objects, or the same one)
      [] n = "cp"        -> /\ Can(h, <<"wn", op[2], op[3], op[4], op[5]>>)
                            /\ Can(h, <<"wn", op[6], op[7], op[8], op[9]>>)
      [] n = "wd"        -> /\ ObjAt(h, op[2], op[3])
                            /\ LET o == h.objs[Get(h, op[2], op[3])]
                               IN  o.t = op[4] /\ op[5] \in 1..Len(o.d)
      [] n = "rd"        -> /\ ObjAt(h, op[2], op[3])
                            /\ LET o == h.objs[Get(h, op[2], op[3])]
                               IN  o.t = op[4] /\ op[5] \in 1..Len(o.d)
      [] n = "len"       -> ObjAt(h, op[2], op[3]) /\ TypeAt(h, op[2], op[3]) = op[4] /\ IsArr(op[4])
      [] n = "mv"        -> HasSlot(h, op[2], op[3]) /\ HasSlot(h, op[4], op[5])
      [] n = "clr"       -> HasSlot(h, op[2], op[3])
      [] n = "imm"       -> HasSlot(h, op[2], op[3]) /\ op[4] < 0
      [] n = "eq"        -> HasSlot(h, op[2], op[3]) /\ HasSlot(h, op[4], op[5])
      \* wup: through an object of a static type t, or (t=TDyn) of a run-time one
      [] n = "wup"       -> /\ ObjAt(h, op[2], op[3]) /\ TypeAt(h, op[2], op[3]) = op[4]
                            /\ op[4] \in (1..NTypes) \cup {TDyn} /\ HasSlot(h, op[5], op[6])
      [] n = "rup"       -> /\ ObjAt(h, op[2], op[3]) /\ TypeAt(h, op[2], op[3]) = op[4]
                            /\ op[4] \in (1..NTypes) \cup {TDyn} /\ HasSlot(h, op[5], op[6])
      [] n = "push"      -> op[3] >= 1
      [] n = "pop"       -> Len(h.frames) > 0
      [] n = "glob"      -> op[2] \in 1..4
      \* jpush n (f s)*n : a frame of n words on the JIT stack; s=0: op gives null or data
      [] n = "jpush"     -> /\ Len(op) >= 3
                            /\ \A i \in 1..((Len(op)-1) \div 2) :
                                  op[2*i] < -1 \/ HasSlot(h, op[2*i], op[2*i+1])
      [] n = "jpop"      -> Len(h.jit) > 0
      [] n = "fin"       -> ObjAt(h, op[2], op[3]) /\ op[4] \in 0..5
      [] n = "resget"    -> HasSlot(h, op[2], op[3])
      [] n \in {"collect", "churn", "yield", "pad", "fill", "obs", "zero", "big", "steady"} -> TRUE
      \* the collector did run in the operation before
      [] n = "collected" -> h.corr # {}
      \* over k: allocate more than can ever fit
      [] n = "over"      -> op[2] >= 1
      \* refuse k: the system refuses all requests after the next k (-1: never)
      \* refuse k m: those for more than m pools
      [] n = "refuse"    -> op[2] >= -1
      [] n \in {"mem", "try"} -> TRUE
      [] n = "corrupt"   -> ObjAt(h, op[2], op[3])
      \* the library stops the program, with a report that
      [] n = "abort"     -> \/ op[2] = 1 /\ h.dying = 1    \* memory is exhausted
                            \/ op[2] = 1 /\ h.lim /\ <<h.try, AllWords(h)>> \notin h.calm
                            \/ op[2] = 2 /\ h.corr # {}    \* memory is corrupted
      [] OTHER           -> FALSE

\* the words of a JIT frame: (f,s) a variable's value; (-2,k) the data word k (k>=0);
\* all the words of one frame share its number, and are popped together
JWord(h, a, b, fr) == IF a = -2 THEN [ref |-> FALSE, v |-> b, fr |-> fr]
                      ELSE IF a = -3 THEN [ref |-> TRUE, v |-> 0, fr |-> fr]
                      ELSE [ref |-> TRUE, v |-> Get(h, a, b), fr |-> fr]
JTop(h) == IF h.jit = << >> THEN 0 ELSE h.jit[Len(h.jit)].fr

Do(h, op) ==
    LET n == op[1] IN
    CASE n = "new"   -> NewObj(h, Obj(op[2], Types[op[2]].p, Types[op[2]].d, 0), op[3], op[4])
      [] n = "newpa" -> NewObj(h, Obj(TPA, op[2], 0, op[2]), op[3], op[4])
      [] n = "newda" -> NewObj(h, Obj(op[2], 0, op[3], op[3]), op[4], op[5])
      [] n = "blob"  -> NewObj(h, [Obj(TBlob, 1, 1, op[3]) EXCEPT !.d = <<op[2]>>], op[4], op[5])
      [] n = "thin"  -> [h EXCEPT !.objs[Get(h, op[2], op[3])] = [@ EXCEPT !.d = <<@[1] + 4>>, !.l = (@ + 1) \div 2]]
      [] n = "desc"  -> LET g == NewObj(h, Obj(TDesc, 1, 0, 0), op[4], op[5])
                        IN  IF op[2] < 6 THEN g ELSE [g EXCEPT !.plain = @ \cup {Len(g.objs)}]
      [] n = "newd"  -> NewObj(h, [t |-> TDyn, p |-> <<Get(h, op[2], op[3])>> \o
                                                     Zeros(IF Get(h, op[2], op[3]) \in h.plain THEN 0 ELSE DynPtrs),
                                   d |-> << >>, l |-> 0], op[4], op[5])
      [] n = "wp"    -> [h EXCEPT !.objs[Get(h, op[2], op[3])].p[op[5]] = Get(h, op[6], op[7])]
      [] n = "cp"    -> [h EXCEPT !.objs[Get(h, op[2], op[3])].p[op[5]] = h.objs[Get(h, op[6], op[7])].p[op[9]]]
      [] n = "wn"    -> [h EXCEPT !.objs[Get(h, op[2], op[3])].p[op[5]] = 0]
      [] n = "rp"    -> Set(h, op[6], op[7], h.objs[Get(h, op[2], op[3])].p[op[5]])
      [] n = "wd"    -> [h EXCEPT !.objs[Get(h, op[2], op[3])].d[op[5]] = op[6]]
      [] n = "mv"    -> Set(h, op[2], op[3], Get(h, op[4], op[5]))
      [] n = "clr"   -> Set(h, op[2], op[3], 0)
      [] n = "imm"   -> Set(h, op[2], op[3], op[4])
      [] n = "wup"   -> IF op[4] = TDyn
                        THEN [h EXCEPT !.objs[h.objs[Get(h, op[2], op[3])].p[1]].p[1] = Get(h, op[5], op[6])]
                        ELSE [h EXCEPT !.ups[op[4]] = Get(h, op[5], op[6])]
      [] n = "rup"   -> Set(h, op[5], op[6],
                            IF op[4] = TDyn THEN h.objs[h.objs[Get(h, op[2], op[3])].p[1]].p[1]
                            ELSE h.ups[op[4]])
      [] n = "push"  -> PushFrame(h, op[3])
      [] n = "pop"   -> [h EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
      [] n = "glob"  -> [h EXCEPT !.globs = @ \o Zeros(op[2])]
      [] n = "jpush" -> LET k == (Len(op)-1) \div 2
                        IN  [h EXCEPT !.jit = @ \o [i \in 1..k |-> JWord(h, op[2*i], op[2*i+1], JTop(h)+1)]]
      [] n = "jpop"  -> [h EXCEPT !.jit = SelectSeq(@, LAMBDA w : w.fr # JTop(h))]
      [] n = "fin"   -> [h EXCEPT !.fins = @ \cup {<<h.nfin + 1, Get(h, op[2], op[3]), op[4]>>},
                                  !.nfin = @ + 1]
      [] n = "over"   -> [h EXCEPT !.dying = 1]
      [] n = "corrupt" -> [h EXCEPT !.corr = @ \cup {Get(h, op[2], op[3])}]
      [] n = "refuse" -> [h EXCEPT !.lim = (op[2] >= 0)]
      [] n = "try"    -> [h EXCEPT !.try = op[2]]
      [] n = "steady" -> [h EXCEPT !.calm = @ \cup {<<op[2], AllWords(h)>>}, !.try = -1]
      [] n = "resget" -> [Set(h, op[2], op[3], h.res) EXCEPT !.res = 0]
      [] OTHER       -> h

\* what an operation returns (0 when it returns nothing)
Res(h, op) ==
    LET n == op[1] IN
    CASE n \in {"new", "newpa", "newda", "blob", "desc", "newd"} -> Len(h.objs) + 1
      [] n = "rd"  -> h.objs[Get(h, op[2], op[3])].d[op[5]]
      [] n = "len" -> h.objs[Get(h, op[2], op[3])].l
      [] n = "eq"  -> IF Get(h, op[2], op[3]) = Get(h, op[4], op[5]) THEN 1 ELSE 0
      [] OTHER     -> 0

\* may the program go on with this operation, or must it have been stopped?
MustStop(h, op) == h.dying # 0 \/ (op[1] \in {"collect", "collected"} /\ h.corr \cap Reach(h) # {})

-----------------------------------------------------------------------------
(* Space.  Words(o) bounds the words of an object, and all objects which a   *)
(* program made itself (but not the garbage of pad, churn and steady) are    *)
(* taken as reachable here; WinWords bounds what steady keeps at once.  The  *)
(* pools held may be Slack times what those need, and as many more.  With    *)
(* more generations, garbage which is itself old keeps younger garbage (as   *)
(* at the consumed end of a list) for as long again per generation.          *)
WinWords(cap) == IF cap < 10000 THEN 1200 ELSE 80000
Slack(gens) == IF gens <= 2 THEN 16 ELSE IF gens = 3 THEN 30 ELSE IF gens = 4 THEN 70 ELSE 150
PoolsOk(h, r, cap, gens) == r <= Slack(gens) + Slack(gens) * ((AllWords(h) + WinWords(cap)) \div cap)

-----------------------------------------------------------------------------
(* What a complete observation of the heap shows: every variable, and every  *)
(* reachable object with all of its members                                  *)
ObsOf(h) == [ g |-> h.globs, f |-> h.frames, u |-> h.ups, r |-> h.res,
              j |-> [i \in 1..Len(h.jit) |-> h.jit[i].v] ]
\* a dump is a sequence of <<id, t, p, d, l>>, one for each object reached
DumpOk(h, S, dump) ==
    /\ Len(dump) = Cardinality(S)
    /\ {dump[i][1] : i \in 1..Len(dump)} = S
    /\ \A i \in 1..Len(dump) :
         LET o == h.objs[dump[i][1]]
         IN  /\ dump[i][2] = o.t /\ dump[i][3] = o.p /\ dump[i][4] = o.d /\ dump[i][5] = o.l

-----------------------------------------------------------------------------
(* Finalizers.  During an operation which collects, the library may run the  *)
(* registered finalizers of objects which the program could not reach when   *)
(* the operation began, each registration at most once; and a full           *)
(* collection must run all of those (other than ones made reachable again    *)
(* by a finalizer meanwhile).  A run is <<object, kind, dump>>, where dump   *)
(* shows everything reachable from the object as its finalizer saw it.       *)
(* Kind 0 looks only; 1 makes the object reachable again, in h.res;          *)
(* 2 allocates (dropping what it allocates); 3 registers a new finalizer of  *)
(* kind 0 for the same object; 4 collects everything, and 5 allocates a lot,  *)
(* and when they end they look again (14 and 15): what is run meanwhile was   *)
(* not reachable from their objects either.                                   *)
RECURSIVE Runs(_, _, _, _, _)
\* the states after running the finalizers `runs`, for a program which could
\* reach only R beforehand: {} if these runs are not allowed
Runs(h, R, runs, i, act) ==
    IF i > Len(runs) THEN IF act = << >> THEN {h} ELSE {}
    ELSE LET r == runs[i]
             cand == {e \in h.fins : e[2] = r[1] /\ e[3] = r[2]}
         IN  IF ~DumpOk(h, Closure(h, {r[1]}), r[3]) THEN {}
             ELSE IF r[2] > 9
             THEN IF act = << >> \/ act[Len(act)] # <<r[1], r[2]>> THEN {}
                  ELSE Runs(h, R, runs, i + 1, SubSeq(act, 1, Len(act) - 1))
             ELSE IF cand = {} \/ r[1] \in R \/ r[1] \in Closure(h, {act[k][1] : k \in 1..Len(act)}) THEN {}
             ELSE LET e  == CHOOSE x \in cand : \A y \in cand : x[1] <= y[1]
                      h1 == [h EXCEPT !.fins = @ \ {e}]
                      h2 == IF r[2] = 1 THEN [h1 EXCEPT !.res = r[1]]
                            ELSE IF r[2] = 3
                            THEN [h1 EXCEPT !.fins = @ \cup {<<h.nfin + 1, r[1], 0>>}, !.nfin = @ + 1]
                            ELSE h1
                      \* what the resurrecting variable held before may now be garbage
                      R2 == IF r[2] = 1 THEN R \cap Reach(h2) ELSE R
                  IN  Runs(h2, R2, runs, i + 1, IF r[2] \in {4, 5} THEN Append(act, <<r[1], r[2] + 10>>) ELSE act)
\* objects which some finalizer made reachable again
Resurrected(h, runs) == Closure(h, {runs[i][1] : i \in {j \in 1..Len(runs) : runs[j][2] = 1}})
\* those which a full collection which began in h must have run by the end
Must(h, runs) == LET R == Reach(h) \cup Resurrected(h, runs)
                 IN  {e \in h.fins : e[2] \notin R}
Collecting == {"new", "newpa", "newda", "blob", "desc", "newd", "churn", "collect", "pad", "fill", "zero",
               "fin", "yield", "push", "glob", "big"}
=============================================================================

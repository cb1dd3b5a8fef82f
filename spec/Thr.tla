-------------------------------- MODULE Thr ---------------------------------
(* Programs of several threads.  A state has each thread's variables (a stack *)
(* of frames, and some slots), the variables common to all, the objects, and  *)
(* the locks, semaphores and barriers.  Events are what threads do, in the    *)
(* order in which it happens: operations which can't yield to the collector   *)
(* are one event, the others are a call and a return.  A collection is a pair *)
(* of events too: between them nothing else happens at all, and when it begins*)
(* every other running thread is within an operation which can yield.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MT == 8   \* thread numbers
NV == 3   \* variables of a frame
NJ == 4   \* slots of a thread
NG == 3   \* common variables
EBUSY == 16
CONSTANT PoolBound   \* pools which programs of the generated sizes may need

Threads == 1..MT
Empty ==
  [ st   |-> [t \in Threads |-> IF t = 1 THEN "made" ELSE "no"],  \* no, made, live, done, joined
    arg  |-> [t \in Threads |-> 0],
    fr   |-> [t \in Threads |-> << >>],
    js   |-> [t \in Threads |-> [i \in 1..NJ |-> 0]],
    g    |-> [i \in 1..NG |-> 0],
    o    |-> << >>,             \* a function from objects to [t, a, b]
    fins |-> {}, ran |-> {},    \* objects with finalizers, and those whose have run
    pend |-> [t \in Threads |-> << >>],
    coll |-> 0 - 1,             \* the thread which collects
    lock |-> [m \in 0..3 |-> 0],
    sem  |-> [s \in 0..3 |-> 0],
    bn   |-> [b \in 0..3 |-> 1],      \* parties
    ba   |-> [b \in 0..3 |-> 0],      \* arrivals
    bd   |-> [b \in 0..3 |-> 0],      \* departures
    br   |-> [b \in 0..3 |-> [t \in Threads |-> 0]],
    lim  |-> FALSE ]                  \* the system may have refused memory  \* rounds of each thread

Top(h, t) == h.fr[t][Len(h.fr[t])]
Val(h, t, k) == Top(h, t)[k]
SetV(h, t, k, x) == [h EXCEPT !.fr[t][Len(h.fr[t])][k] = x]

Roots(h) == (UNION {{h.fr[t][d][k] : d \in 1..Len(h.fr[t]), k \in 1..NV} : t \in Threads}
             \cup UNION {{h.js[t][k] : k \in 1..NJ} : t \in Threads}
             \cup {h.arg[t] : t \in Threads}
             \cup {h.g[k] : k \in 1..NG}) \ {0}
RECURSIVE Clo(_, _, _)
Clo(h, done, todo) == IF todo = {} THEN done
                      ELSE LET d == done \cup todo
                               n == UNION {{h.o[x].a, h.o[x].b} : x \in todo} \ {0}
                           IN  Clo(h, d, n \ d)
Reach(h) == Clo(h, {}, Roots(h))

-----------------------------------------------------------------------------
(* What may happen *)
Calls == {"new", "chain", "churn", "collect", "yield", "call", "lock", "wait", "bwait", "nap", "bar", "create", "join", "fin",
          "storm", "xlock", "xwait", "xbar", "xjoin", "xcreate"}
Simple == {"wp", "wn", "rp", "mv", "clr", "eq", "gset", "gget", "jset", "jget", "unlock", "trylock", "post", "obs", "ret", "refuse"}
Running(h, t) == h.st[t] = "live"

\* a thread's own observation
ObsOk(h, t, e) == /\ e.f = h.fr[t] /\ e.j = h.js[t] /\ e.g = h.g
                  /\ \A k \in 1..Len(e.o) :
                        /\ e.o[k][1] \in DOMAIN h.o
                        /\ h.o[e.o[k][1]] = [t |-> e.o[k][2], a |-> e.o[k][3], b |-> e.o[k][4]]

\* the value which a simple operation gives
SimpleRes(h, t, op) ==
    LET n == op[1] IN
    CASE n \in {"wp", "wn"} -> IF Val(h, t, op[2]) = 0 THEN -1 ELSE 0
      [] n = "rp" -> LET x == Val(h, t, op[2]) IN IF x = 0 THEN -1 ELSE IF op[3] = 1 THEN h.o[x].a ELSE h.o[x].b
      [] n = "eq" -> IF Val(h, t, op[2]) = Val(h, t, op[3]) THEN 1 ELSE 0
      [] n = "gget" -> h.g[op[2]]
      [] n = "jget" -> h.js[t][op[2]]
      [] n = "ret" -> Val(h, t, op[2])
      [] OTHER -> 0

\* is there a reason to refuse this event? ("" if not)
Why(h, e) ==
  LET n == e.op[1] IN
  IF n \notin Calls \cup Simple \cup {"start", "exit", "cb", "ce", "fin", "end", "abort"} THEN "not an operation of the specification"
  \* the program may be stopped for want of memory, with a report that it is
  ELSE IF n = "abort" THEN (IF h.lim /\ e.op[2] = 1 THEN "" ELSE "stopped for no reason")
  ELSE IF n = "end" THEN
       IF \E t \in Threads : h.st[t] \notin {"no", "joined", "done"} THEN "a thread has not finished" ELSE ""
  ELSE LET t == e.t IN
  IF h.coll # -1 /\ ~(n = "ce" /\ t = h.coll) THEN "a thread runs during a collection"
  ELSE IF n = "cb" THEN
       IF \E u \in Threads : u # t /\ Running(h, u) /\ h.pend[u] = << >> THEN "a collection while a thread runs"
       ELSE IF t = 0 /\ ~\E u \in Threads : (Running(h, u) /\ h.pend[u] # << >> /\ h.pend[u][1] = "storm") \/ h.st[u] = "made"
            THEN "a collection by nobody"
       ELSE IF t \in Threads /\ Running(h, t) /\ h.pend[t] = << >> THEN "a collection not asked for" ELSE ""
  ELSE IF n = "ce" THEN (IF h.coll # t THEN "end of no collection" ELSE "")
  ELSE IF e.k = "e" /\ n = "fin" THEN
       IF e.r \notin h.fins \ h.ran THEN "finalizer run twice, or for another object"
       ELSE IF e.r \in Reach(h) THEN "finalizer of a reachable object"
       ELSE IF t \in Threads /\ Running(h, t) /\ h.pend[t] = << >> THEN "finalizer outside of an operation" ELSE ""
  ELSE IF t \notin Threads THEN "no such thread"
  ELSE IF n = "start" THEN
       IF h.st[t] # "made" THEN "a thread starts which was not created" ELSE IF e.r # h.arg[t] THEN "wrong argument" ELSE ""
  ELSE IF ~Running(h, t) THEN "a thread runs which has not started, or has finished"
  ELSE IF n = "exit" THEN (IF h.pend[t] # << >> THEN "exit within an operation" ELSE "")
  ELSE IF e.k = "s" THEN
       IF n \notin Simple \/ h.pend[t] # << >> THEN "not an operation of the specification"
       \* takes a lock, if it's free, and releases it
       ELSE IF n = "trylock" THEN
            IF e.r = 0 THEN (IF h.lock[e.op[2]] # 0 THEN "two threads hold a lock" ELSE "")
            ELSE IF e.r # EBUSY THEN "wrong result"
            ELSE IF h.lock[e.op[2]] = 0 /\ ~\E u \in Threads : h.pend[u] # << >> /\ h.pend[u] = <<"lock", e.op[2]>>
                 THEN "a free lock is refused" ELSE ""
       ELSE IF n = "unlock" /\ h.lock[e.op[2]] # t THEN "generator: unlocks what it does not hold"
       ELSE IF SimpleRes(h, t, e.op) # e.r THEN "wrong result"
       ELSE IF n = "obs" /\ ~ObsOk(h, t, e) THEN "a thread's objects differ"
       ELSE ""
  ELSE IF e.k = "c" THEN (IF n \notin Calls \/ h.pend[t] # << >> THEN "not an operation of the specification"
                          ELSE IF n = "create" /\ h.st[e.op[2]] # "no" THEN "generator: thread exists" ELSE "")
  ELSE IF e.k # "r" \/ h.pend[t] # e.op THEN "returns from what was not called"
  ELSE \* returns
  CASE n = "new" -> IF e.r < 1 \/ e.r \in DOMAIN h.o THEN "not a new object" ELSE ""
    [] n = "chain" -> IF \E k \in 1..Len(e.ids) : e.ids[k] < 1 \/ e.ids[k] \in DOMAIN h.o THEN "not new objects" ELSE ""
    [] n = "lock" -> IF e.r # 0 THEN "wrong result" ELSE IF h.lock[e.op[2]] # 0 THEN "two threads hold a lock" ELSE ""
    [] n \in {"wait", "bwait"} -> IF e.r # 0 THEN "wrong result" ELSE IF h.sem[e.op[2]] <= 0 THEN "passes a semaphore of zero" ELSE ""
    [] n = "bar" -> IF e.r # 0 THEN "wrong result"
                    ELSE LET b == e.op[2] IN
                         IF h.ba[b] < h.bn[b] * h.br[b][t] \/ h.bd[b] >= h.bn[b] * (h.ba[b] \div h.bn[b])
                         THEN "passes a barrier too early" ELSE ""
    [] n = "create" -> IF e.r # 0 THEN "wrong result" ELSE IF h.st[e.op[2]] \notin {"made", "live", "done"} THEN "not created" ELSE ""
    [] n = "join" -> IF e.r # 0 THEN "wrong result" ELSE IF h.st[e.op[2]] # "done" THEN "joined before its end" ELSE ""
    [] n \in {"xlock", "xwait", "xbar", "xjoin"} ->
                       IF e.r # -1 THEN "a failure is not reported" ELSE IF e.err # e.op[3] THEN "wrong error" ELSE ""
    [] n = "xcreate" -> IF e.r # -1 THEN "a failure is not reported" ELSE IF e.err # e.op[2] THEN "wrong error" ELSE ""
    [] n = "fin" -> LET x == Val(h, t, e.op[2]) IN
                    IF e.r = -1 THEN
                         \* (another thread may have begun to register the same object)
                         IF x = 0 \/ x \in h.fins
                            \/ \E u \in Threads : u # t /\ h.pend[u] # << >> /\ h.pend[u][1] = "fin" /\ Val(h, u, h.pend[u][2]) = x
                         THEN "" ELSE "wrong result"
                    ELSE IF x = 0 \/ x \in h.fins \/ e.r # x THEN "wrong result" ELSE ""
    [] n = "storm" -> IF e.r < 0 THEN "wrong result" ELSE IF e.r > PoolBound THEN "memory of threads is not reused" ELSE ""
    \* alone, a collection is complete
    [] n = "collect" -> IF (\A u \in Threads : u # t => h.st[u] \in {"no", "joined"}) /\ ~((h.fins \ h.ran) \subseteq Reach(h))
                        THEN "a finalizer was not run" ELSE ""
    [] OTHER -> IF e.r # 0 THEN "wrong result" ELSE ""

\* what it does
Do(h, e) ==
  LET n == e.op[1] IN
  IF n \in {"end", "abort"} THEN h
  ELSE LET t == e.t op == e.op IN
  IF n = "cb" THEN [h EXCEPT !.coll = t]
  ELSE IF n = "ce" THEN [h EXCEPT !.coll = -1]
  ELSE IF e.k = "e" /\ n = "fin" THEN [h EXCEPT !.ran = @ \cup {e.r}]
  ELSE IF n = "start" THEN [h EXCEPT !.st[t] = "live", !.fr[t] = << <<h.arg[t], 0, 0>> >>]
  ELSE IF n = "exit" THEN [h EXCEPT !.st[t] = "done", !.fr[t] = << >>, !.js[t] = [i \in 1..NJ |-> 0], !.arg[t] = 0]
  ELSE IF e.k = "c" THEN
       LET h1 == [h EXCEPT !.pend[t] = op] IN
       CASE n = "create" -> [h1 EXCEPT !.st[op[2]] = "made", !.arg[op[2]] = Val(h, t, op[3])]
         [] n = "bar" -> [h1 EXCEPT !.ba[op[2]] = @ + 1, !.br[op[2]][t] = @ + 1]
         [] OTHER -> h1
  ELSE IF e.k = "s" THEN
       CASE n = "wp" -> LET x == Val(h, t, op[2]) y == Val(h, t, op[4]) IN
                        IF x = 0 THEN h ELSE IF op[3] = 1 THEN [h EXCEPT !.o[x].a = y] ELSE [h EXCEPT !.o[x].b = y]
         [] n = "wn" -> LET x == Val(h, t, op[2]) IN
                        IF x = 0 THEN h ELSE IF op[3] = 1 THEN [h EXCEPT !.o[x].a = 0] ELSE [h EXCEPT !.o[x].b = 0]
         [] n = "rp" -> IF e.r = -1 THEN h ELSE SetV(h, t, op[4], e.r)
         [] n = "mv" -> SetV(h, t, op[2], Val(h, t, op[3]))
         [] n = "clr" -> SetV(h, t, op[2], 0)
         [] n = "gset" -> [h EXCEPT !.g[op[2]] = Val(h, t, op[3])]
         [] n = "gget" -> SetV(h, t, op[3], h.g[op[2]])
         [] n = "jset" -> [h EXCEPT !.js[t][op[2]] = Val(h, t, op[3])]
         [] n = "jget" -> SetV(h, t, op[3], h.js[t][op[2]])
         [] n = "refuse" -> [h EXCEPT !.lim = TRUE]
         [] n = "unlock" -> [h EXCEPT !.lock[op[2]] = 0]
         [] n = "post" -> [h EXCEPT !.sem[op[2]] = @ + 1]
         [] n = "ret" -> SetV([h EXCEPT !.fr[t] = SubSeq(@, 1, Len(@) - 1)], t, op[3], Val(h, t, op[2]))
         [] OTHER -> h
  ELSE LET h1 == [h EXCEPT !.pend[t] = << >>] IN
       CASE n = "new" -> SetV([h1 EXCEPT !.o = @ @@ (e.r :> [t |-> op[3], a |-> 0, b |-> 0])], t, op[2], e.r)
         [] n = "chain" -> LET q == e.ids
                               f == [x \in {q[k] : k \in 1..Len(q)} |->
                                       LET k == CHOOSE k \in 1..Len(q) : q[k] = x IN
                                       [t |-> 1 + ((k - 1) % 3), a |-> IF k = 1 THEN Val(h, t, op[2]) ELSE q[k-1], b |-> 0]]
                           IN  SetV([h1 EXCEPT !.o = @ @@ f], t, op[2], q[Len(q)])
         [] n = "call" -> [h1 EXCEPT !.fr[t] = Append(@, Top(h, t))]
         [] n = "lock" -> [h1 EXCEPT !.lock[op[2]] = t]
         [] n \in {"wait", "bwait"} -> [h1 EXCEPT !.sem[op[2]] = @ - 1]
         [] n = "bar" -> [h1 EXCEPT !.bd[op[2]] = @ + 1]
         [] n = "join" -> [h1 EXCEPT !.st[op[2]] = "joined"]
         [] n = "fin" -> IF e.r = -1 THEN h1 ELSE [h1 EXCEPT !.fins = @ \cup {e.r}]
         [] OTHER -> h1

\* the initial state of a program: its header says what the semaphores and barriers begin with
Begin(hd) == [Empty EXCEPT !.sem = [s \in 0..3 |-> hd.sem[s+1]], !.bn = [b \in 0..3 |-> hd.bar[b+1]]]
=============================================================================

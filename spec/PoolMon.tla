------------------------------ MODULE PoolMon ------------------------------
(* What a user of the thread pool can observe: calls and returns of the      *)
(* pool's operations, starts and ends of tasks. A monitor state m summarises *)
(* the history; Bad(p, m, ev) names the guarantees of property p which event *)
(* ev would break, Step(m, ev) is the next monitor state. The design model   *)
(* Pool.tla and the trace specification PoolTrace.tla both run this monitor. *)
EXTENDS Integers, Sequences, FiniteSets

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
None == [x \in {} |-> 0]

Mon0(n) == [
   W |-> n,            \* workers that may exist (the larger number during a reset)
   paused |-> FALSE,
   changing |-> FALSE, \* a pause or unpause is under way
   called |-> {},      \* tasks whose push was called
   open |-> {},        \* ... and has not returned
   pre |-> None,       \* task -> tasks accepted before its push was called
   ret |-> {},         \* tasks whose push returned
   started |-> {}, ended |-> {},
   run |-> {},         \* <<worker, task>> being executed
   seen |-> {},        \* workers that have ever started a task
   took |-> {},        \* workers that may start nothing more while the pool stays paused
   idle |-> FALSE,     \* paused and known to execute nothing
   settled |-> FALSE,  \* everything accepted so far is known to be finished
   waits |-> None,     \* client -> its open wait
   resets |-> None,    \* client -> its open reset
   counts |-> None,    \* client -> open query: has anything happened since?
   loops |-> None,     \* loop id -> its description and blocks
   dead |-> FALSE]

Unstarted(m) == m.called \ m.started
Busy(m) == {e[1] : e \in m.run}
Disturb(m) == [m EXCEPT !.counts = [c \in DOMAIN m.counts |-> TRUE]]

----------------------------------------------------------------------------
(* A task (or a block of a loop) begins on a worker *)
StartBad(p, m, w) ==
    (IF p # "C09" THEN {} ELSE
       (IF Cardinality(m.run) + 1 <= m.W THEN {} ELSE {"more tasks run at once than there are workers"}) \cup
       (IF w \notin Busy(m) THEN {} ELSE {"a worker runs two tasks at once"})) \cup
    (IF p # "C10" THEN {} ELSE
       (IF ~m.idle THEN {} ELSE {"a task started while the pool was paused and idle"}) \cup
       (IF m.paused /\ w \in m.took THEN {"a worker took another task while the pool was paused"} ELSE {}) \cup
       (IF ~m.dead THEN {} ELSE {"a task started after the pool was destroyed"}))
TaskBad(p, m, w, t) ==
    StartBad(p, m, w) \cup
    (IF p # "C09" THEN {} ELSE
       (IF t \in m.called THEN {} ELSE {"a task ran that nobody pushed"}) \cup
       (IF t \notin m.started THEN {} ELSE {"a task ran twice"}) \cup
       \* tasks accepted earlier have been taken by other workers: those which are not executing something
       (IF t \notin DOMAIN m.pre \/ Cardinality({a \in m.pre[t] : a \notin m.started}) <= m.W - 1 - Cardinality(m.run)
        THEN {} ELSE {"a task overtook tasks that were accepted before it"}))
Begin(m, w, t) ==
    [Disturb(m) EXCEPT !.started = @ \cup {t}, !.run = @ \cup {<<w, t>>}, !.seen = @ \cup {w}, !.took = @ \cup {w},
                       !.waits = [c \in DOMAIN @ |-> [@[c] EXCEPT !.calm = FALSE]]]
Finish(m, w, t) ==
    LET r == m.run \ {<<w, t>>} IN
    [Disturb(m) EXCEPT !.ended = @ \cup {t}, !.run = r,
                       !.waits = [c \in DOMAIN @ |-> [@[c] EXCEPT !.sawIdle = @ \/ r = {}]]]
EndBad(p, m, w, t) ==
    IF p = "C09" /\ <<w, t>> \notin m.run THEN {"a task ended that was not running"} ELSE {}

----------------------------------------------------------------------------
Push(m, c, t) == [Disturb(m) EXCEPT !.called = @ \cup {t}, !.open = @ \cup {t}, !.pre = Ext(@, t, m.ret),
                                    !.settled = FALSE]
Accept(m, t) == [Disturb(m) EXCEPT !.open = @ \ {t}, !.ret = @ \cup {t}]

Toggled(m) == [c \in DOMAIN m.waits |-> [m.waits[c] EXCEPT !.toggled = TRUE]]
Changing(m, b) == [m EXCEPT !.changing = b, !.waits = Toggled(m)]
Pause(m) == [Disturb(m) EXCEPT !.changing = FALSE, !.paused = TRUE, !.took = Busy(m), !.waits = Toggled(m)]
Unpause(m) == [Disturb(m) EXCEPT !.paused = FALSE, !.idle = FALSE, !.waits = Toggled(m)]

WaitCall(m, c) == [m EXCEPT !.waits = Ext(@, c, [tasks |-> m.ret, paused |-> m.paused, toggled |-> m.resets # None \/ m.changing,
                                                 sawIdle |-> m.run = {}, calm |-> TRUE])]
WaitBad(p, m, c) ==
    LET w == m.waits[c] IN
    IF p # "C10" THEN {} ELSE
    IF w.toggled THEN
      (IF w.tasks \subseteq m.ended \/ w.sawIdle THEN {} ELSE {"waiting returned although tasks were executing all the time"})
    ELSE IF w.paused
    THEN (IF m.run = {} THEN {} ELSE {"waiting for a paused pool returned while a task was executing"})
    ELSE (IF w.tasks \subseteq m.ended THEN {} ELSE {"waiting returned before all accepted tasks had finished"})
WaitRet(m, c) ==
    LET w == m.waits[c] IN
    [m EXCEPT !.waits = Drop(@, c),
              !.idle = @ \/ (~w.toggled /\ w.paused),
              !.settled = @ \/ (~w.toggled /\ ~w.paused /\ m.called = m.ended /\ m.open = {})]

\* a reset pauses the pool while it works
ResetCall(m, c, n) == [Disturb(m) EXCEPT !.waits = Toggled(m), !.resets = Ext(@, c, [run |-> m.run, seen |-> m.seen, n |-> n, paused |-> m.paused]),
                                         !.W = IF n > @ THEN n ELSE @]
ResetBad(p, m, c, n) ==
    LET r == m.resets[c] IN
    IF p # "C10" THEN {} ELSE
    (IF r.run \cap m.run = {} THEN {} ELSE {"a reset returned before the running tasks had finished"}) \cup
    (IF \A e \in m.run : e[1] \notin r.seen THEN {} ELSE {"a reset returned while an old worker was executing a task"}) \cup
    (IF n = r.n THEN {} ELSE {"a reset pool does not have the requested number of workers"}) \cup
    (IF r.paused /\ m.paused /\ m.run # {} THEN {"a paused pool ran a task after a reset"} ELSE {})
ResetRet(m, c, n) == [Disturb(m) EXCEPT !.W = n, !.idle = m.paused, !.resets = Drop(@, c)]

CountsCall(m, c) == [m EXCEPT !.counts = Ext(@, c, FALSE)]
\* the counts are promised when nothing can be in between two states
Full(m) == Cardinality(m.run) = m.W
Steady(m, c) == ~m.counts[c] /\ m.open = {} /\ m.resets = None /\ DOMAIN m.loops = {}
                /\ (m.idle \/ m.settled \/ Full(m))
CountsBad(p, m, c, q, r, tot, n) ==
    IF p # "C10" THEN {} ELSE
    (IF n = m.W \/ m.resets # None THEN {} ELSE {"the reported number of workers is wrong"}) \cup
    (IF ~Steady(m, c) THEN {} ELSE
      (IF q = Cardinality(Unstarted(m)) THEN {} ELSE {"the reported number of queued tasks is wrong"}) \cup
      (IF r = Cardinality(m.run) THEN {} ELSE {"the reported number of running tasks is wrong"}) \cup
      (IF tot = Cardinality(Unstarted(m)) + Cardinality(m.run) THEN {} ELSE {"the reported number of tasks is wrong"}))
CountsRet(m, c) == [m EXCEPT !.counts = Drop(@, c)]

DestroyBad(p, m) ==
    IF m.paused THEN {} ELSE
    IF p = "C09" THEN (IF m.called \subseteq m.started THEN {} ELSE {"an accepted task was never executed"})
    ELSE IF p = "C10" THEN (IF m.called \subseteq m.ended /\ m.run = {} THEN {} ELSE {"the pool was destroyed before all tasks had finished"})
    ELSE {}

----------------------------------------------------------------------------
(* Futures: want describes the task, [kind, v] *)
FutureBad(p, m, t, kind, v, want) ==
    IF p # "C11" THEN {} ELSE
    (IF t \in m.ended THEN {} ELSE {"a future was ready before its task had run"}) \cup
    (IF kind = want.kind /\ v = want.v THEN {} ELSE {"a future did not deliver the result of its task"})
PollBad(p, m, t, ready) ==
    IF p = "C11" /\ ready /\ t \notin m.ended THEN {"a future was ready before its task had run"} ELSE {}

(* Parallel loops: the index range is cut into blocks *)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
LoopCall(m, id, first, last, nb) ==
    [Disturb(m) EXCEPT !.loops = Ext(@, id, [lo |-> MinI(first, last), hi |-> MaxI(first, last),
                                             nb |-> IF nb = 0 THEN m.W ELSE nb, blocks |-> <<>>, closed |-> 0]),
                       !.settled = FALSE]
BlockBegin(m, w, t, id, a, b) ==
    LET n == Begin(m, w, t) IN
    IF id \in DOMAIN m.loops THEN [n EXCEPT !.loops[id].blocks = Append(@, <<a, b>>)] ELSE n
BlockEnd(m, w, t, id) ==
    LET n == Finish(m, w, t) IN
    IF id \in DOMAIN m.loops THEN [n EXCEPT !.loops[id].closed = @ + 1] ELSE n
BlockBad(p, m, id) == IF p = "C11" /\ id \notin DOMAIN m.loops THEN {"a block ran outside its loop"} ELSE {}
Covers(L, i) == Cardinality({k \in DOMAIN L.blocks : L.blocks[k][1] <= i /\ i < L.blocks[k][2]})
LoopBad(p, m, id) ==
    LET L == m.loops[id] IN
    IF p # "C11" THEN {} ELSE
    (IF \A i \in L.lo..(L.hi - 1) : Covers(L, i) = 1 THEN {} ELSE {"a loop did not execute every index exactly once"}) \cup
    (IF \A k \in DOMAIN L.blocks : L.lo <= L.blocks[k][1] /\ L.blocks[k][1] < L.blocks[k][2] /\ L.blocks[k][2] <= L.hi
     THEN {} ELSE {"a loop executed indices outside its range"}) \cup
    (IF Len(L.blocks) <= L.nb THEN {} ELSE {"a loop used more blocks than allowed"}) \cup
    (IF L.closed = Len(L.blocks) THEN {} ELSE {"a loop returned before its blocks had finished"})
LoopRet(m, id) == [m EXCEPT !.loops = Drop(@, id)]

\* the partition the library uses
Blocks(lo, hi, nb) ==
    LET total == hi - lo
        size == total \div nb
        k == IF size = 0 THEN total ELSE nb
        s == MaxI(size, 1) IN
    [t \in 1..k |-> <<lo + (t - 1) * s, IF t = k THEN hi ELSE lo + t * s>>]
LoopOf(lo, hi, nb) == [lo |-> lo, hi |-> hi, nb |-> nb, blocks |-> Blocks(lo, hi, nb), closed |-> Len(Blocks(lo, hi, nb))]
=============================================================================

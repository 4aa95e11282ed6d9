-------------------------------- MODULE Pool --------------------------------
(* Design of the thread pool: clients execute programs of pool operations,   *)
(* workers take tasks from a mutex-protected queue; control flags and the    *)
(* counter of unfinished tasks are atomics that are read and written one at  *)
(* a time. Every atomic access or critical section is one step. The monitor  *)
(* of PoolMon observes the calls, returns, starts and ends.                  *)
EXTENDS PoolMon, TLC, Json

CONSTANTS Programs,      \* client -> sequence of operations; client 1 creates and destroys the pool
          W0,            \* initial number of workers
          MaxWorker,     \* worker names 1..MaxWorker (a reset uses fresh ones)
          Variant,       \* "ok", or a seeded design fault the monitor has to notice
          Emit

Clients == DOMAIN Programs
Workers == 1..MaxWorker

VARIABLES pc,        \* client -> <<operation index, step>>
          mem,       \* client -> local value
          queue, total, paused, alive,
          wk,        \* worker -> [at, task]
          made,      \* workers created so far
          m,         \* monitor
          bad,       \* guarantees broken
          obs        \* observable history (and queue pops), for replay
vars == <<pc, mem, queue, total, paused, alive, wk, made, m, bad, obs>>
state == <<pc, mem, queue, total, paused, alive, wk, made, m, bad>>

Off == [at |-> "off", task |-> 0]
Init == /\ pc = [c \in Clients |-> <<1, "go">>]
        /\ mem = [c \in Clients |-> 0]
        /\ queue = <<>> /\ total = 0 /\ paused = FALSE /\ alive = TRUE
        /\ made = W0
        /\ wk = [w \in Workers |-> IF w <= W0 THEN [at |-> "top", task |-> 0] ELSE Off]
        /\ m = Mon0(W0) /\ bad = {} /\ obs = <<>>

Props == {"C09", "C10", "C11"}
Note(b, next) == bad' = bad \cup b /\ m' = next
All(B(_)) == UNION {B(p) : p \in Props}
Seen(who, what) == obs' = IF Emit THEN Append(obs, who \o "/" \o what) ELSE obs
C(c) == "c" \o ToString(c)
K(w) == "w" \o ToString(w)

Op(c) == Programs[c][pc[c][1]]
At(c, s) == pc[c][1] <= Len(Programs[c]) /\ pc[c][2] = s
Goto(c, s) == pc' = [pc EXCEPT ![c][2] = s]
Done(c) == pc' = [pc EXCEPT ![c] = <<@[1] + 1, "go">>]
Keep(xs) == UNCHANGED xs

----------------------------------------------------------------------------
(* Workers *)
Top(w) ==
    /\ wk[w].at = "top"
    /\ wk' = [wk EXCEPT ![w].at = IF ~alive THEN "off" ELSE IF Variant = "pauseUnlocked" THEN "check" ELSE "try"]
    /\ Keep(<<pc, mem, queue, total, paused, alive, made, m, bad, obs>>)
Check(w) ==    \* the seeded fault: the pause flag is read before the queue is locked
    /\ wk[w].at = "check"
    /\ wk' = [wk EXCEPT ![w].at = IF paused THEN "top" ELSE "try2"]
    /\ Keep(<<pc, mem, queue, total, paused, alive, made, m, bad, obs>>)
Try(w) ==
    /\ wk[w].at \in {"try", "try2"}
    /\ IF (wk[w].at = "try" /\ paused) \/ queue = <<>>
       THEN wk' = [wk EXCEPT ![w].at = "top"] /\ Keep(<<queue, obs>>)
       ELSE LET k == IF Variant = "lifo" THEN Len(queue) ELSE 1 IN
            /\ wk' = [wk EXCEPT ![w] = [at |-> "got", task |-> queue[k]]]
            /\ queue' = IF Variant = "peek" THEN queue ELSE SubSeq(queue, 1, k - 1) \o SubSeq(queue, k + 1, Len(queue))
            /\ Seen(K(w), "pop")
    /\ Keep(<<pc, mem, total, paused, alive, made, m, bad>>)
Run(w) ==
    /\ wk[w].at = "got"
    /\ wk' = [wk EXCEPT ![w].at = "run"]
    /\ Note(All(LAMBDA p : TaskBad(p, m, K(w), wk[w].task)), Begin(m, K(w), wk[w].task))
    /\ Seen(K(w), "start:" \o ToString(wk[w].task))
    /\ Keep(<<pc, mem, queue, total, paused, alive, made>>)
End(w) ==
    /\ wk[w].at = "run"
    /\ wk' = [wk EXCEPT ![w].at = "dec"]
    /\ Note(All(LAMBDA p : EndBad(p, m, K(w), wk[w].task)), Finish(m, K(w), wk[w].task))
    /\ Seen(K(w), "end:" \o ToString(wk[w].task))
    /\ Keep(<<pc, mem, queue, total, paused, alive, made>>)
Dec(w) ==
    /\ wk[w].at = "dec"
    /\ wk' = [wk EXCEPT ![w] = [at |-> "top", task |-> 0]]
    /\ total' = total - 1
    /\ Keep(<<pc, mem, queue, paused, alive, made, m, bad, obs>>)
Worker(w) == Top(w) \/ Check(w) \/ Try(w) \/ Run(w) \/ End(w) \/ Dec(w)

----------------------------------------------------------------------------
(* Clients: push and submit *)
PushCall(c) ==
    /\ At(c, "go") /\ Op(c).op \in {"push", "submit"}
    /\ Goto(c, "inc") /\ Note({}, Push(m, C(c), Op(c).t)) /\ Seen(C(c), "pcall")
    /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)
PushInc(c) ==
    /\ At(c, "inc") /\ Goto(c, "enq")
    /\ total' = IF Variant = "lateCount" THEN total ELSE total + 1
    /\ Keep(<<mem, queue, paused, alive, wk, made, m, bad, obs>>)
PushEnq(c) ==
    /\ At(c, "enq") /\ Goto(c, IF Variant = "lateCount" THEN "late" ELSE "ret")
    /\ queue' = Append(queue, Op(c).t) /\ Seen(C(c), "enq")
    /\ Keep(<<mem, total, paused, alive, wk, made, m, bad>>)
PushLate(c) ==
    /\ At(c, "late") /\ Goto(c, "ret") /\ total' = total + 1
    /\ Keep(<<mem, queue, paused, alive, wk, made, m, bad, obs>>)
PushRet(c) ==
    /\ At(c, "ret") /\ Op(c).op \in {"push", "submit"} /\ Done(c)
    /\ Note({}, Accept(m, Op(c).t)) /\ Seen(C(c), "pret")
    /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)

(* pause and unpause *)
PauseOp(c) ==
    /\ At(c, "go") /\ Op(c).op = "pause" /\ Done(c) /\ paused' = TRUE
    /\ Note({}, Pause(m)) /\ Seen(C(c), "pause")
    /\ Keep(<<mem, queue, total, alive, wk, made>>)
UnpauseOp(c) ==
    /\ At(c, "go") /\ Op(c).op = "unpause" /\ Done(c) /\ paused' = FALSE
    /\ Note({}, Unpause(m)) /\ Seen(C(c), "unpause")
    /\ Keep(<<mem, queue, total, alive, wk, made>>)

(* the polling loop of wait_for_tasks, shared by wait, reset and destroy *)
WaitLoop(c) ==
    \/ /\ At(c, "w1")
       /\ Goto(c, IF paused THEN "w3" ELSE "w2")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made, m, bad, obs>>)
    \/ /\ At(c, "w2")
       /\ Goto(c, IF total = 0 THEN "waited" ELSE "w1")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made, m, bad, obs>>)
    \/ /\ At(c, "w3")
       /\ IF Variant = "countUnlocked"     \* the seeded fault: total and queue are read at different times
          THEN Goto(c, "w4") /\ mem' = [mem EXCEPT ![c] = total]
          ELSE Goto(c, IF total - Len(queue) = 0 THEN "waited" ELSE "w1") /\ Keep(mem)
       /\ Keep(<<queue, total, paused, alive, wk, made, m, bad, obs>>)
    \/ /\ At(c, "w4")
       /\ Goto(c, IF mem[c] - Len(queue) = 0 THEN "waited" ELSE "w1")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made, m, bad, obs>>)
WaitCallOp(c) ==
    /\ At(c, "go") /\ Op(c).op = "wait" /\ Goto(c, "w1")
    /\ Note({}, WaitCall(m, C(c))) /\ Seen(C(c), "wcall")
    /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)
WaitRetOp(c) ==
    /\ At(c, "waited") /\ Op(c).op = "wait" /\ Done(c)
    /\ Note(All(LAMBDA p : WaitBad(p, m, C(c))), WaitRet(m, C(c))) /\ Seen(C(c), "wret")
    /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)

(* reset *)
Stopped == \A w \in 1..made : wk[w].at = "off"
Reset(c) ==
    \/ /\ At(c, "go") /\ Op(c).op = "reset"
       /\ Goto(c, IF Variant = "resetNoPause" THEN "waited" ELSE "w1")
       /\ mem' = [mem EXCEPT ![c] = IF paused THEN 1 ELSE 0] /\ paused' = (Variant # "resetNoPause" \/ paused)
       /\ Note({}, ResetCall(m, C(c), Op(c).n)) /\ Seen(C(c), "rcall")
       /\ Keep(<<queue, total, alive, wk, made>>)
    \/ /\ At(c, "waited") /\ Op(c).op = "reset" /\ Goto(c, "join") /\ alive' = FALSE
       /\ Keep(<<mem, queue, total, paused, wk, made, m, bad, obs>>)
    \/ /\ At(c, "join") /\ Op(c).op = "reset" /\ (Stopped \/ Variant = "noJoin") /\ Goto(c, "again")
       /\ paused' = (mem[c] = 1 /\ Variant # "resetForgets")
       /\ Keep(<<mem, queue, total, alive, wk, made, m, bad, obs>>)
    \/ /\ At(c, "again") /\ Goto(c, "rret") /\ alive' = TRUE
       /\ wk' = [w \in Workers |-> IF w > made /\ w <= made + Op(c).n THEN [at |-> "top", task |-> 0] ELSE wk[w]]
       /\ made' = made + Op(c).n
       /\ Keep(<<mem, queue, total, paused, m, bad, obs>>)
    \/ /\ At(c, "rret") /\ Done(c)
       /\ Note(All(LAMBDA p : ResetBad(p, m, C(c), Op(c).n)), ResetRet(m, C(c), Op(c).n)) /\ Seen(C(c), "rret")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)

(* the three counts, read one after another *)
Counts(c) ==
    \/ /\ At(c, "go") /\ Op(c).op = "counts" /\ Goto(c, "q")
       /\ Note({}, CountsCall(m, C(c))) /\ Seen(C(c), "ccall")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)
    \/ /\ At(c, "q") /\ Goto(c, "r") /\ mem' = [mem EXCEPT ![c] = <<Len(queue)>>]
       /\ Keep(<<queue, total, paused, alive, wk, made, m, bad, obs>>)
    \/ /\ At(c, "r") /\ Goto(c, "t") /\ mem' = [mem EXCEPT ![c] = Append(@, total - Len(queue))]
       /\ Keep(<<queue, total, paused, alive, wk, made, m, bad, obs>>)
    \/ /\ At(c, "t") /\ Done(c) /\ mem' = [mem EXCEPT ![c] = 0]
       /\ Note(All(LAMBDA p : CountsBad(p, m, C(c), mem[c][1], mem[c][2], total, m.W)), CountsRet(m, C(c)))
       /\ Seen(C(c), "cret")
       /\ Keep(<<queue, total, paused, alive, wk, made>>)

(* futures become ready when the task has returned *)
Get(c) ==
    \/ /\ At(c, "go") /\ Op(c).op = "get" /\ Goto(c, "get") /\ Seen(C(c), "gcall")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made, m, bad>>)
    \/ /\ At(c, "get") /\ Op(c).t \in m.ended /\ Done(c) /\ Seen(C(c), "gret")
       /\ Note(All(LAMBDA p : FutureBad(p, m, Op(c).t, "v", 0, [kind |-> "v", v |-> 0])), m)
       /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)

(* joining the other clients, destroying the pool *)
JoinOp(c) ==
    /\ At(c, "go") /\ Op(c).op = "join"
    /\ \A d \in Clients \ {c} : pc[d][1] > Len(Programs[d])
    /\ Done(c) /\ Keep(<<mem, queue, total, paused, alive, wk, made, m, bad, obs>>)
Destroy(c) ==
    \/ /\ At(c, "go") /\ Op(c).op = "destroy" /\ Goto(c, IF Variant = "destroyNoWait" THEN "waited" ELSE "w1") /\ Seen(C(c), "dcall")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made, m, bad>>)
    \/ /\ At(c, "waited") /\ Op(c).op = "destroy" /\ Goto(c, "join") /\ alive' = FALSE
       /\ Keep(<<mem, queue, total, paused, wk, made, m, bad, obs>>)
    \/ /\ At(c, "join") /\ Op(c).op = "destroy" /\ Stopped /\ Done(c)
       /\ Note(All(LAMBDA p : DestroyBad(p, m)), [m EXCEPT !.dead = TRUE]) /\ Seen(C(c), "dret")
       /\ Keep(<<mem, queue, total, paused, alive, wk, made>>)

Client(c) == PushCall(c) \/ PushInc(c) \/ PushEnq(c) \/ PushLate(c) \/ PushRet(c) \/ PauseOp(c) \/ UnpauseOp(c)
             \/ WaitLoop(c) \/ WaitCallOp(c) \/ WaitRetOp(c) \/ Reset(c) \/ Counts(c) \/ Get(c) \/ JoinOp(c) \/ Destroy(c)
Finished == \A c \in Clients : pc[c][1] > Len(Programs[c])
Next == (\E c \in Clients : Client(c)) \/ (\E w \in Workers : Worker(w))
Spec == Init /\ [][Next]_vars
Fair == /\ \A c \in Clients : WF_vars(Client(c))
        /\ \A w \in Workers : WF_vars(Worker(w))
FairSpec == Spec /\ Fair

----------------------------------------------------------------------------
Guarantees == bad = {}
\* every accepted task is in exactly one place
Conserved == Variant # "ok" \/
    \A t \in m.ret : (IF t \in m.ended THEN 1 ELSE 0)
                     + Cardinality({k \in DOMAIN queue : queue[k] = t})
                     + Cardinality({w \in Workers : wk[w].at \in {"got", "run"} /\ wk[w].task = t}) = 1
Counter == Variant # "ok" \/
    total = Len(queue) + Cardinality({w \in Workers : wk[w].at \in {"got", "run", "dec"}})
            + Cardinality({c \in Clients : At(c, "enq")})
EverythingFinishes == <>[]Finished

PartitionsExact ==
    \A lo \in -3..3, n \in 0..9, nb \in 1..5 :
        LoopBad("C11", [Mon0(nb) EXCEPT !.loops = Ext(None, 1, LoopOf(lo, lo + n, nb))], 1) = {}

View == state
Printed == (Emit /\ Finished') => PrintT("@H" \o ToJson(obs'))
=============================================================================

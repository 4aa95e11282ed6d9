----------------------------- MODULE PoolTrace -----------------------------
(* Judges recorded executions of the real thread pool with the monitor.      *)
EXTENDS PoolMon, TraceCommon
VARIABLES l, m

Failed(ev) ==
    CASE ev.e = "start" -> TaskBad(Prop, m, ev.w, ev.t)
      [] ev.e = "bstart" -> StartBad(Prop, m, ev.w) \cup BlockBad(Prop, m, ev.id)
      [] ev.e \in {"end", "bend"} -> EndBad(Prop, m, ev.w, ev.t)
      [] ev.e = "wret" -> WaitBad(Prop, m, ev.c)
      [] ev.e = "rret" -> ResetBad(Prop, m, ev.c, ev.n)
      [] ev.e = "cret" -> CountsBad(Prop, m, ev.c, ev.q, ev.r, ev.tot, ev.n)
      [] ev.e = "dret" -> DestroyBad(Prop, m)
      [] ev.e = "gret" -> FutureBad(Prop, m, ev.t, ev.kind, ev.v, ev.want)
      [] ev.e = "poll" -> PollBad(Prop, m, ev.t, ev.ready)
      [] ev.e = "lret" -> LoopBad(Prop, m, ev.id)
      [] ev.e = "stuck" -> {"an operation or task never finished (no thread can make progress): " \o ev.why}
      [] ev.e = "died" -> {"the process died: " \o ev.why}
      [] ev.e = "crash" -> CrashBad(ev)
      [] OTHER -> {}

After(ev) ==
    CASE ev.e = "ctor" -> Mon0(ev.n)
      [] ev.e = "pcall" -> Push(m, ev.c, ev.t)
      [] ev.e = "pret" -> Accept(m, ev.t)
      [] ev.e = "start" -> Begin(m, ev.w, ev.t)
      [] ev.e = "end" -> Finish(m, ev.w, ev.t)
      [] ev.e = "bstart" -> BlockBegin(m, ev.w, ev.t, ev.id, ev.a, ev.b)
      [] ev.e = "bend" -> BlockEnd(m, ev.w, ev.t, ev.id)
      [] ev.e = "pause" -> Pause(m)
      [] ev.e = "pausing" -> Changing(m, TRUE)
      [] ev.e = "unpause" -> [Unpause(m) EXCEPT !.changing = TRUE]
      [] ev.e = "unpaused" -> Changing(m, FALSE)
      [] ev.e = "wcall" -> WaitCall(m, ev.c)
      [] ev.e = "wret" -> WaitRet(m, ev.c)
      [] ev.e = "rcall" -> ResetCall(m, ev.c, ev.n)
      [] ev.e = "rret" -> ResetRet(m, ev.c, ev.n)
      [] ev.e = "ccall" -> CountsCall(m, ev.c)
      [] ev.e = "cret" -> CountsRet(m, ev.c)
      [] ev.e = "lcall" -> LoopCall(m, ev.id, ev.first, ev.last, ev.nb)
      [] ev.e = "lret" -> LoopRet(m, ev.id)
      [] ev.e = "dret" -> [m EXCEPT !.dead = TRUE]
      [] OTHER -> m

TraceInit == l = 1 /\ m = Mon0(1) /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       IF ev.e = "begin" THEN m' = Mon0(1)
       ELSE Judge(ev, Failed(ev)) /\ m' = After(ev)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, m>>
TraceAccepted == Accepted
=============================================================================

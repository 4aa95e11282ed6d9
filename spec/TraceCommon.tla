---------------------------- MODULE TraceCommon ----------------------------
(* Reading a recorded trace and accepting it: shared by all trace            *)
(* specifications. A trace is a sequence of events; "begin" starts a new     *)
(* scenario. Rejections are printed and make the post-condition false.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Has(r, f) == f \in DOMAIN r

\* clause c of property p: failed iff it is checked here and its condition is false
Clause(p, c, cond) == IF Prop = p /\ ~cond THEN {c} ELSE {}

Reject(ev, bad) ==
    /\ PrintT("@REJECT" \o ToJson([sid |-> ev.sid, k |-> ev.ei, bad |-> bad]))
    /\ TLCSet(1, TLCGet(1) + 1)

Judge(ev, bad) == IF bad = {} THEN TRUE ELSE Reject(ev, bad)

\* a driver that died or hung while executing an operation never returned from it
CrashBad(ev) == {"the call never returned: " \o ev.what \o " in " \o ev.args}
ExcBad(ev) == {"the call threw: " \o ev.exc}

Accepted == TLCGet(1) = 0 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

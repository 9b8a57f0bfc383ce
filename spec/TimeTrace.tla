---------------------------- MODULE TimeTrace ----------------------------
(* Conversions of arbitrary timestamps recorded from the library, against the calendar of Time (C19). *)
EXTENDS Bytes, FiniteSets, TLC, Json, IOUtils
CONSTANTS Years, Days, Secs, Ticks, Subs
VARIABLES y, m, d, s, tick, sub, t, phase, out, tid, i
vars == <<y, m, d, s, tick, sub, t, phase, out, tid, i>>
C == INSTANCE Time
T == ndJsonDeserialize(IOEnv.TRACE)
\* an event: timestamp, the calendar time it converts to, and the timestamp that converts back to
Ok(e) == /\ e.date[2] \in 1..12
         /\ LET x == C!TicksOf(C!DayNumber(e.date[1], e.date[2], e.date[3]), e.date[4], e.date[5]) IN
            /\ Eq(x, e.t) /\ Eq(e.back, e.t) /\ e.sub = 0
            /\ e.sys = "early" <=> ~LessEq(C!EpochDiff, e.t)
Init == /\ tid \in 1..Len(T) /\ i = 0
        /\ y = 0 /\ m = 0 /\ d = 0 /\ s = 0 /\ tick = 0 /\ sub = 0 /\ t = << >> /\ phase = "trace" /\ out = << >>
Next == /\ i < Len(T[tid].ev)
        /\ IF Ok(T[tid].ev[i + 1]) THEN i' = i + 1 ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ UNCHANGED <<y, m, d, s, tick, sub, t, phase, out, tid>>
Spec == Init /\ [][Next]_vars
==========================================================================

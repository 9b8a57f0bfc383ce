----------------------------- MODULE WalkTrace -----------------------------
(* Recorded iterations over damaged volumes against the protocol of Walk (C14).  Calls with the same outcome are counted together. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Bounds
VARIABLES bound, mode, items, calls, tid, i
vars == <<bound, mode, items, calls, tid, i>>
W == INSTANCE Walk
T == ndJsonDeserialize(IOEnv.TRACE)
Init == /\ tid \in 1..Len(T) /\ i = 0
        /\ bound = T[tid].bound /\ mode = "running" /\ items = 0 /\ calls = 0
\* A record that is over must have come to its end or to an error.
Complete == i + 1 < Len(T[tid].ev) \/ W!After(T[tid].ev[i + 1].o) # "running"
Next == /\ i < Len(T[tid].ev)
        /\ LET e == T[tid].ev[i + 1] IN
           IF W!CanDo(e.o, e.n) /\ Complete THEN W!Call(e.o, e.n) /\ i' = i + 1
           ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
BoundedT == W!Bounded
============================================================================

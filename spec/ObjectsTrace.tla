--------------------------- MODULE ObjectsTrace ---------------------------
(* Recorded use of real objects against the contract of Objects (C15, C16).  Sizes and positions are real ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Slots, Types, ValLen, Items, Questions, Reads, Targets, FaultKinds, MaxIdx, MaxFaults, Depth, Clones
VARIABLES slot, own, h, faults, tid, i
vars == <<slot, own, h, faults, tid, i>>
O == INSTANCE Objects
T == ndJsonDeserialize(IOEnv.TRACE)
Empty == [t |-> "-", n |-> 0, at |-> 0]
Init == tid \in 1..Len(T) /\ i = 0 /\ slot = [s \in Slots |-> Empty] /\ own = << >> /\ h = << >> /\ faults = 0
(* outcome, number, position afterwards: is it one of those allowed, and are the bytes the stream's *)
Outs(e, x) == CASE e.op = "read" -> O!ReadOut(x.n, x.at, e.a, e.f)
                [] e.op = "exact" -> O!ExactOut(x.n, x.at, e.a, e.f)
                [] e.op = "seek" -> O!SeekOut(x.at, e.a, e.f)
                [] e.op = "next" -> O!NextOut(x.n, x.at, e.f)
                [] e.op = "ask" -> O!AskOut(x.at, e.f)
\* The sets are large where sizes are real: membership is decided by cases.
Full(e, x) == O!Min(e.a, O!Max(0, x.n - x.at))
Allowed(e, x) ==
  CASE e.op = "read" -> /\ e.pos = x.at + e.m
                        /\ \/ e.r = "ok" /\ e.m = Full(e, x)
                           \/ e.r = "ok" /\ e.f # "none" /\ e.m \in 1..Full(e, x)
                           \/ e.r = "err" /\ O!Breaks(e.f) /\ e.m = 0
    [] e.op = "exact" -> IF e.a <= O!Max(0, x.n - x.at)
                         THEN \/ e.r = "ok" /\ e.pos = x.at + e.a
                              \/ e.r = "err" /\ e.f \in {"fail", "zero"} /\ e.pos \in x.at..(x.at + e.a)
                         ELSE e.r = "err" /\ e.pos \in x.at..O!Max(x.at, x.n)
    [] e.op = "seek" -> LET r == <<e.r, IF e.r = "ok" THEN e.m ELSE 0, e.pos>> IN r \in O!SeekOut(x.at, e.a, e.f)
    [] e.op = "next" -> <<e.r, e.m, IF e.r = "item" THEN e.m ELSE x.at>> \in O!NextOut(x.n, x.at, e.f)
    [] e.op = "ask" -> <<e.r, 0, x.at>> \in O!AskOut(x.at, e.f)
After(e, x) == CASE e.op \in {"read", "exact", "seek"} -> e.pos [] e.op = "next" -> IF e.r = "item" THEN e.m ELSE x.at [] OTHER -> x.at
Step(e) ==
  CASE e.op = "open" -> slot' = [slot EXCEPT ![e.s] = [t |-> e.t, n |-> e.a, at |-> e.pos]]
    [] e.op = "clone" -> slot[e.s].t \in {"val", "it"} /\ slot' = [slot EXCEPT ![e.a] = slot[e.s]]
    [] OTHER -> /\ e.good
                /\ Allowed(e, slot[e.s])
                /\ slot' = [slot EXCEPT ![e.s].at = After(e, slot[e.s])]
Ok(e) == e.op \in {"open", "clone"} \/ (e.good /\ Allowed(e, slot[e.s]))
Next == /\ i < Len(T[tid].ev)
        /\ LET e == T[tid].ev[i + 1] IN
           IF Ok(e) THEN Step(e) /\ i' = i + 1
           ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ UNCHANGED <<own, h, faults, tid>>
Spec == Init /\ [][Next]_vars
===========================================================================

---------------------------- MODULE LayoutTrace ----------------------------
(* What the library reports for random structures, against the offset table of Layout (C17). *)
EXTENDS Bytes, FiniteSets, TLC, Json, IOUtils
CONSTANTS Types, Pats, Vals
VARIABLES ty, b, phase, g, f, cur, out, ok, tid, i
vars == <<ty, b, phase, g, f, cur, out, ok, tid, i>>
L == INSTANCE Layout
T == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == {s[k] : k \in 1..Len(s)}
Good(e) == /\ e.ok <=> L!Accept
           /\ e.ok => /\ Set(e.out) = Set(L!WithName) /\ Len(e.out) = Len(L!WithName)
                      /\ Set(e.text) = (IF ty = "objid" THEN {<<x[1], L!Text(x[2])>> : x \in Set(L!WithName)} ELSE {})
Init == /\ tid \in 1..Len(T) /\ i = 0 /\ ty = T[tid].ty
        /\ b = IF Len(T[tid].ev) > 0 THEN T[tid].ev[1].b ELSE << >>
        /\ phase = "trace" /\ g = 1 /\ f = 1 /\ cur = 0 /\ out = << >> /\ ok = TRUE
Next == /\ i < Len(T[tid].ev)
        /\ IF Good(T[tid].ev[i + 1]) THEN i' = i + 1 ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ b' = IF i + 2 <= Len(T[tid].ev) THEN T[tid].ev[i + 2].b ELSE << >>
        /\ UNCHANGED <<ty, phase, g, f, cur, out, ok, tid>>
Spec == Init /\ [][Next]_vars
=============================================================================

--------------------------- MODULE RunListTrace ---------------------------
(* Recorded decodings of arbitrary byte strings, checked step by step with RunList's decoder (C04). *)
EXTENDS Bytes, TLC, Json, IOUtils

CONSTANTS FirstLens, FirstDels, LenWidths, DelWidths, Ks, MaxElems, Tails
VARIABLES es, tail, k, off, prev, out, stat, tid, i
vars == <<es, tail, k, off, prev, out, stat, tid, i>>
R == INSTANCE RunList

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tid].ev

Init == /\ tid \in 1..Len(Traces) /\ i = 1
        /\ k = Traces[tid].k /\ off = 0 /\ prev = R!Rep(0, 8) /\ stat = "go"
        /\ es = << >> /\ tail = "" /\ out = << >>

Next == /\ i <= Len(Ev)
        /\ LET e == Ev[i]
               d == IF stat = "go" THEN R!Decode(Traces[tid].b, off, prev, k) ELSE [r |-> stat]
               ok == /\ e.r = d.r
                     /\ d.r = "run" => e.a = d.a /\ e.loc = d.loc
           IN IF ok
              THEN /\ i' = i + 1
                   /\ IF d.r = "run" THEN off' = d.o /\ prev' = d.p /\ UNCHANGED stat
                      ELSE stat' = d.r /\ UNCHANGED <<off, prev>>
              ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i)) /\ FALSE
        /\ UNCHANGED <<es, tail, k, out, tid>>
Spec == Init /\ [][Next]_vars
=============================================================================

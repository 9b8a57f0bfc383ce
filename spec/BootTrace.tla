----------------------------- MODULE BootTrace -----------------------------
(* Random boot sectors and what the library made of them, against the contract of Boot (C13). *)
EXTENDS Bytes, FiniteSets, TLC, Json, IOUtils
CONSTANTS SectorSizes, SpcBytes, FrsBytes, Sectors, Lcns, Signatures
VARIABLES f, phase, cs, frs, size, pos, tid, i
vars == <<f, phase, cs, frs, size, pos, tid, i>>
B == INSTANCE Boot
T == ndJsonDeserialize(IOEnv.TRACE)
Ok(e) == /\ e.ok = B!Valid(e.f)
         /\ e.ok => /\ e.cs = B!Cluster(e.f) /\ e.frs = B!FrsRaw(e.f) /\ e.ss = e.f.ss
                    /\ Eq(e.size, B!Size(e.f)) /\ Eq(e.pos, B!MftPos(e.f)) /\ e.serial = e.f.serial
Init == tid \in 1..Len(T) /\ i = 0 /\ f = << >> /\ phase = "trace" /\ cs = 0 /\ frs = 0 /\ size = << >> /\ pos = << >>
Next == /\ i < Len(T[tid].ev)
        /\ IF Ok(T[tid].ev[i + 1]) THEN i' = i + 1 ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ UNCHANGED <<f, phase, cs, frs, size, pos, tid>>
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------ MODULE SectorReaderTrace ------------------------
(* Recorded use of the shell's sector reader with real sector sizes.  A step is accepted if it fulfils the contract of
   SectorReader, or if it is exactly the labelled deviation its machine makes from the position the device was left at. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS SSs, Sectors, Depth, Repaired
VARIABLES ss, pos, inner, h, tid, i
vars == <<ss, pos, inner, h, tid, i>>
S == INSTANCE SectorReader
T == ndJsonDeserialize(IOEnv.TRACE)
(* An event: op, arg, r, to (position afterwards), at and n (what was read from the device, n = 0 for nothing),
   good (the bytes are those from pos on), shifted (the bytes are those at the same offset of the sectors read). *)
Moved(e) == IF e.op = "start" THEN e.arg ELSE pos + e.arg
Seek(e) == /\ e.n = 0
           /\ IF Moved(e) < 0 THEN e.r = "error" /\ e.to = pos ELSE e.r = "ok" /\ e.to = Moved(e)
Inside(e) == pos + e.arg <= T[tid].size
Right(e) == e.r = "ok" /\ e.to = pos + e.arg /\ e.good /\ e.n = S!RightAcc(pos, e.arg)[2] /\ (e.n = 0 \/ e.at = S!Down(pos))
Start == pos - S!Down(pos)
Wanted(e) == S!Down(Start + e.arg) + ss
Deviates(e) == inner # S!Down(pos) \/ e.arg = 0 \/ (Start + e.arg) % ss = 0
AsIs(e) == /\ Deviates(e)
           /\ IF inner + Wanted(e) <= T[tid].size THEN e.r = "ok" /\ e.to = pos + e.arg /\ e.at = inner /\ e.n = Wanted(e) /\ e.shifted
              ELSE e.r = "error" /\ e.to = pos
Outside(e) == ~Inside(e) /\ (e.r = "error" /\ e.to = pos)
Ok(e) == IF e.op = "read" THEN e.at % ss = 0 /\ e.n % ss = 0 /\ (Right(e) \/ Outside(e) \/ AsIs(e)) ELSE Seek(e)
Init == /\ tid \in 1..Len(T) /\ i = 0 /\ ss = T[tid].ss /\ pos = 0 /\ inner = 0 /\ h = << >>
Next == /\ i < Len(T[tid].ev)
        /\ LET e == T[tid].ev[i + 1] IN
           IF Ok(e) THEN i' = i + 1 /\ pos' = e.to /\ inner' = e.inner
           ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ UNCHANGED <<ss, h, tid>>
Spec == Init /\ [][Next]_vars
===========================================================================

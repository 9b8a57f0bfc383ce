---------------------------- MODULE SectorReader ----------------------------
(***************************************************************************)
(* The shell's reader for devices that support whole sectors only (C21).   *)
(*                                                                         *)
(* pos is where the caller stands, inner where the device stands.          *)
(*                                                                         *)
(* Contract of a read of k bytes inside the device: the bytes are those    *)
(* from pos on, and the device is accessed at exactly the sectors that     *)
(* contain them.  Seeks move to where a seek on the device would.          *)
(*                                                                         *)
(* Machine: what the reader does as it stands.  It breaks the contract in  *)
(* three ways, all known findings; a step that deviates from the contract  *)
(* is labelled with them, and the exact deviation is predicted, so that    *)
(* any other one is still a violation.                                     *)
(*   place   it reads from where the last read left the device, which is   *)
(*           not the sector of pos if that read did not end in its own     *)
(*           last sector                                                   *)
(*   extra   a read that ends at a sector boundary takes one more sector   *)
(*   empty   a read of nothing takes a sector                              *)
(* Repaired = TRUE is the machine with the repair applied (out of reach    *)
(* here, as the file belongs to the examples); it fulfils the contract.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SSs, Sectors, Depth, Repaired
VARIABLES ss, pos, inner, h
vars == <<ss, pos, inner, h>>

Down(n) == (n \div ss) * ss
Up(n) == Down(n + ss - 1)
Size == Sectors * ss
Last(s) == s[Len(s)]

(* ---- contract of the read ---- *)
Inside(p, k) == p + k <= Size
RightFrom(p) == p
RightAcc(p, k) == IF k = 0 THEN <<0, 0>> ELSE <<Down(p), Up(p + k) - Down(p)>>

Log(e) == h' = Append(h, e)
Init == /\ ss \in SSs /\ pos = 0 /\ inner = 0 /\ h = << >>
Go == Len(h) < Depth
SeekTo(n, name, arg) ==
  IF n < 0 THEN /\ Log([op |-> name, arg |-> arg, r |-> "error", to |-> pos]) /\ UNCHANGED <<pos, inner>>
  ELSE /\ pos' = n /\ inner' = Down(n) /\ Log([op |-> name, arg |-> arg, r |-> "ok", to |-> n])
Targets == {0, 1, ss - 1, ss, ss + 1, 2 * ss - 1, 2 * ss, Size - 1, Size, Size + 1} \cap (0..(Size + 1))
Deltas == {-ss - 1, -ss, -1, 0, 1, ss}
SeekStart == Go /\ \E n \in Targets : SeekTo(n, "start", n) /\ UNCHANGED ss
SeekCur == Go /\ \E n \in Deltas : SeekTo(pos + n, "cur", n) /\ UNCHANGED ss
Lens == {0, 1, ss - 1, ss, ss + 1, 2 * ss, Size} \cap (0..Size)
ReadOp == Go /\ UNCHANGED ss /\ \E k \in Lens :
  LET ap == Down(pos)
      start == pos - ap
      at == IF Repaired THEN ap ELSE inner
      n == IF Repaired THEN (IF k = 0 THEN 0 ELSE Up(start + k)) ELSE Down(start + k) + ss
      fits == at + n <= Size
      kinds == {x \in {"place", "extra", "empty"} :
                  \/ x = "place" /\ k > 0 /\ at # ap
                  \/ x = "extra" /\ k > 0 /\ n # Up(start + k)
                  \/ x = "empty" /\ k = 0 /\ n # 0}
  IN /\ IF n = 0 THEN UNCHANGED <<pos, inner>>
        ELSE IF fits THEN pos' = pos + k /\ inner' = at + n
        ELSE pos' = pos /\ inner' = (IF at > Size THEN at ELSE Size)
     /\ Log([op |-> "read", arg |-> k, r |-> IF fits \/ n = 0 THEN "ok" ELSE "error", to |-> IF fits \/ n = 0 THEN pos + k ELSE pos,
             from |-> at + start, at |-> at, n |-> n, inside |-> Inside(pos, k), p |-> pos,
             right |-> RightAcc(pos, k), kinds |-> [x \in kinds |-> TRUE]])
Next == SeekStart \/ SeekCur \/ ReadOp
Spec == Init /\ [][Next]_vars

(* Every step inside the device fulfils the contract or is labelled. *)
Holds(e) == e.op # "read" \/ ~e.inside \/ (e.r = "ok" /\ (e.arg = 0 \/ e.from = e.p) /\ (e.n = 0 \/ e.at = e.right[1]) /\ e.n = e.right[2])
Contract == h = << >> \/ Holds(Last(h)) \/ (~Repaired /\ DOMAIN Last(h).kinds # {})
Aligned == h = << >> \/ Last(h).op # "read" \/ (Last(h).at % ss = 0 /\ Last(h).n % ss = 0)
Emit == (Len(h) = Depth /\ Last(h).op = "read") => PrintT(ToJson([ss |-> ss, size |-> Size, h |-> h]))
=============================================================================

-------------------------------- MODULE Boot --------------------------------
(***************************************************************************)
(* Volume geometry from the boot sector (C13).                             *)
(*                                                                         *)
(* Fields are little-endian byte sequences; products are computed with     *)
(* unbounded numbers.  The machine checks the fields one after the other;  *)
(* the contract says declaratively which boot sectors are volumes and what *)
(* their geometry is.                                                      *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC, Json

CONSTANTS SectorSizes, SpcBytes, FrsBytes, Sectors, Lcns, Signatures

VARIABLES f, phase, cs, frs, size, pos
vars == <<f, phase, cs, frs, size, pos>>

Pow2(n) == 2 ^ n
IsPow2(v) == \E n \in 0..30 : v = Pow2(n)
Log2(v) == CHOOSE n \in 0..30 : v = Pow2(n)
SByte(b) == IF b >= 128 THEN b - 256 ELSE b
(* Shifting left by n bits, exactly. *)
RECURSIVE Shift(_, _)
Shift(a, n) == IF n = 0 THEN a ELSE IF n >= 16 THEN Shift(MulN(a, 65536, Len(a) + 3), n - 16) ELSE MulN(a, Pow2(n), Len(a) + 3)

(* ---- contract: what a boot sector means ---- *)
SpcOk(b) == (b <= 128 /\ IsPow2(b)) \/ (b > 128 /\ 256 - b <= 12)
Spc(b) == IF b <= 128 THEN b ELSE Pow2(256 - b)
SectorOk(s) == s \in {512, 1024, 2048, 4096}
Cluster(g) == Spc(g.spc) * g.ss
ClusterOk(g) == SpcOk(g.spc) /\ SectorOk(g.ss) /\ Cluster(g) <= 2097152
RecordSizes == {1024, 2048, 4096}
FrsRaw(g) == LET i == SByte(g.frs) IN
             IF i > 0 THEN IF i * (Cluster(g) \div 512) <= 8 THEN i * Cluster(g) ELSE 0
             ELSE IF -i <= 12 THEN Pow2(-i) ELSE 0
FrsOk(g) == FrsRaw(g) \in RecordSizes
Size(g) == Shift(g.total, Log2(g.ss))
MftPos(g) == Shift(g.lcn, Log2(Cluster(g)))
Valid(g) == /\ g.sig = <<85, 170>>
            /\ ClusterOk(g) /\ FrsOk(g)
            /\ Fits(Size(g), 8)
            /\ ~IsZero(g.lcn) /\ Fits(MftPos(g), 8)

(* ---- machine ---- *)
Init == f = [ss |-> 0] /\ phase = "pick" /\ cs = 0 /\ frs = 0 /\ size = << >> /\ pos = << >>
Pick == /\ phase = "pick"
        /\ \E s \in SectorSizes, c \in SpcBytes, r \in FrsBytes, t \in Sectors, l \in Lcns, g \in Signatures :
             f' = [ss |-> s, spc |-> c, frs |-> r, total |-> t, lcn |-> l, sig |-> g]
        /\ phase' = "signature" /\ UNCHANGED <<cs, frs, size, pos>>
Goto(ok, p) == phase' = IF ok THEN p ELSE "error"
Signature == phase = "signature" /\ Goto(f.sig = <<85, 170>>, "spc") /\ UNCHANGED <<f, cs, frs, size, pos>>
SpcStep == /\ phase = "spc"
           /\ LET e == 256 - f.spc IN
              IF f.spc > 128 THEN Goto(e <= 12, "sector") /\ cs' = (IF e <= 12 THEN Pow2(e) ELSE 0)
              ELSE Goto(f.spc > 0 /\ IsPow2(f.spc), "sector") /\ cs' = f.spc
           /\ UNCHANGED <<f, frs, size, pos>>
SectorStep == /\ phase = "sector" /\ Goto(f.ss >= 512 /\ f.ss <= 4096 /\ IsPow2(f.ss), "cluster")
              /\ UNCHANGED <<f, cs, frs, size, pos>>
ClusterStep == /\ phase = "cluster" /\ cs' = cs * f.ss /\ Goto(cs * f.ss <= 2097152, "size")
               /\ UNCHANGED <<f, frs, size, pos>>
SizeStep == /\ phase = "size" /\ size' = MulN(f.total, f.ss, 11) /\ Goto(Fits(MulN(f.total, f.ss, 11), 8), "record")
            /\ UNCHANGED <<f, cs, frs, pos>>
RecordStep == /\ phase = "record"
              /\ LET i == SByte(f.frs)
                     v == IF i > 0 THEN MulN(OfInt(cs, 3), i, 5) ELSE IF -i > 20 THEN <<255, 255, 255, 255>> ELSE OfInt(Pow2(-i), 4)
                     ok == \E r \in RecordSizes : Eq(v, OfInt(r, 2))
                 IN Goto(ok, "lcn") /\ frs' = (IF ok THEN ToInt(v) ELSE 0)
              /\ UNCHANGED <<f, cs, size, pos>>
LcnStep == /\ phase = "lcn"
           /\ pos' = MulN(f.lcn, cs, 12)
           /\ Goto(~IsZero(f.lcn) /\ Fits(MulN(f.lcn, cs, 12), 8), "volume")
           /\ UNCHANGED <<f, cs, frs, size>>
Next == Pick \/ Signature \/ SpcStep \/ SectorStep \/ ClusterStep \/ SizeStep \/ RecordStep \/ LcnStep
Spec == Init /\ [][Next]_vars

Contract ==
  /\ phase = "error" => ~Valid(f)
  /\ phase = "volume" => /\ Valid(f)
                         /\ cs = Cluster(f) /\ frs = FrsRaw(f)
                         /\ Eq(size, Size(f)) /\ Eq(pos, MftPos(f))
Emit == phase \in {"error", "volume"} =>
  PrintT(ToJson([f |-> f, ok |-> phase = "volume", cs |-> cs, frs |-> frs, size |-> Ext(size, 8), pos |-> Ext(pos, 8)]))
=============================================================================

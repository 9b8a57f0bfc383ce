------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Objects that share one device reader (C15), and what a faulty device    *)
(* may do to them (C16).                                                   *)
(*                                                                         *)
(* An object is a value with a cursor, an iterator over a sequence of      *)
(* items, or something that answers questions without a state of its own   *)
(* (a finder, a volume, a file).  Objects live in slots; any number of     *)
(* them is opened, cloned, used and dropped in any order.  The state of an *)
(* object is one number: the position of a value, the items an iterator    *)
(* has delivered.  The device's own position is no part of the state.      *)
(*                                                                         *)
(* Every operation meets at most some faults of one kind on the device:    *)
(*   short   a read delivers fewer bytes than asked for                    *)
(*   int     an access fails with "interrupted"                            *)
(*   fail    an access fails                                               *)
(*   zero    a read delivers nothing, as at the end of the device          *)
(* Contract: no fault, and a short read, changes nothing but the number of *)
(* bytes of a single read; the others give the same, fewer bytes of a      *)
(* single read, or an error that leaves the object as it was; exact reads  *)
(* survive interruptions, and failing may have consumed what they report.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Types, ValLen, Items, Questions, Reads, Targets, FaultKinds, MaxIdx, MaxFaults, Depth, Clones

None == [k |-> "-", at |-> 0]
Ty(size, k) == size[k].t
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Breaks(f) == f \in {"int", "fail", "zero"}

(* ---- the contract: pairs <<outcome, state afterwards>> --------------------------- *)
\* size: length of the value / number of items; f: kind of the faults met ("none": none)
ReadOut(size, at, n, f) ==
  LET full == Min(n, Max(0, size - at)) IN
  { <<"ok", full, at + full>> }
  \cup (IF f = "none" THEN {} ELSE { <<"ok", m, at + m>> : m \in 1..full })
  \cup (IF Breaks(f) THEN { <<"err", 0, at>> } ELSE {})
ExactOut(size, at, n, f) ==
  LET left == Max(0, size - at) IN
  IF n <= left THEN { <<"ok", n, at + n>> } \cup (IF f \in {"fail", "zero"} THEN { <<"err", 0, at + m>> : m \in 0..n } ELSE {})
               ELSE { <<"err", 0, at + m>> : m \in 0..left }
\* target -1: before the beginning
SeekOut(at, to, f) ==
  IF to < 0 THEN { <<"err", 0, at>> }
  ELSE { <<"ok", to, to>> } \cup (IF Breaks(f) THEN { <<"err", 0, at>> } ELSE {})
NextOut(size, at, f) ==
  (IF at < size THEN { <<"item", at + 1, at + 1>> } ELSE { <<"end", 0, at>> })
  \cup (IF Breaks(f) THEN { <<"err", 0, at>> } ELSE {})
AskOut(at, f) == { <<"same", 0, at>> } \cup (IF Breaks(f) THEN { <<"err", 0, at>> } ELSE {})

(* ---- histories -------------------------------------------------------------------- *)
VARIABLES slot, own, h, faults
vars == <<slot, own, h, faults>>
SizeOf(k) == IF k = "val" THEN ValLen ELSE IF k = "it" THEN Items ELSE 0
Faults == { <<"none", 0>> } \cup (IF faults < MaxFaults THEN FaultKinds \X (0..MaxIdx) ELSE {})
Init == slot = [s \in Slots |-> None] /\ own = [s \in Slots |-> << >>] /\ h = << >> /\ faults = 0

Did(op, s, a, f) == /\ h' = Append(h, <<op, s, a, f[1], f[2]>>)
                    /\ faults' = IF f[1] = "none" THEN faults ELSE faults + 1
\* Slots are filled from the first.
Free(s) == slot[s] = None /\ \A t \in Slots : t < s => slot[t] # None
Open(s, k) == /\ Free(s)
              /\ slot' = [slot EXCEPT ![s] = [k |-> k, at |-> 0]]
              /\ own' = [own EXCEPT ![s] = << >>]
              /\ h' = Append(h, <<"open", s, k, "none", 0>>) /\ UNCHANGED faults
Clone(s, t) == /\ Clones /\ slot[s].k \in {"val", "it"} /\ Free(t)
               /\ slot' = [slot EXCEPT ![t] = slot[s]]
               /\ own' = [own EXCEPT ![t] = own[s]]
               /\ h' = Append(h, <<"clone", s, t, "none", 0>>) /\ UNCHANGED faults
Use(s, op, a, f, outs) == \E o \in outs :
              /\ slot' = [slot EXCEPT ![s].at = o[3]]
              /\ own' = [own EXCEPT ![s] = Append(@, <<op, a, f[1], o>>)]
              /\ Did(op, s, a, f)
Ops(s, f) == LET k == slot[s].k at == slot[s].at IN
   \/ k = "val" /\ \E n \in Reads : Use(s, "read", n, f, ReadOut(ValLen, at, n, f[1]))
   \/ k = "val" /\ \E n \in Reads : Use(s, "exact", n, f, ExactOut(ValLen, at, n, f[1]))
   \/ k = "val" /\ \E t \in Targets \cup {-1} : Use(s, "seek", t, f, SeekOut(at, t, f[1]))
   \/ k = "it" /\ Use(s, "next", 0, f, NextOut(Items, at, f[1]))
   \/ k = "pure" /\ \E q \in 1..Questions : Use(s, "ask", q, f, AskOut(at, f[1]))
Next == /\ Len(h) < Depth
        /\ \/ \E s \in Slots, k \in Types : Open(s, k)
           \/ \E s, t \in Slots : Clone(s, t)
           \/ \E s \in Slots : slot[s] # None /\ \E f \in Faults : Ops(s, f)
Spec == Init /\ [][Next]_vars

(* ---- what the contract implies -------------------------------------------------------- *)
\* The state of an object follows from its own operations (and those before it was cloned) alone.
RECURSIVE Fold(_, _, _)
Fold(o, i, at) == IF i > Len(o) THEN at ELSE Fold(o, i + 1, o[i][4][3])
Alone == \A s \in Slots : slot[s] # None => slot[s].at = Fold(own[s], 1, 0)
\* Bytes and items are delivered once each, in order: leaving out the failed operations gives a history without faults.
RECURSIVE Clean(_, _, _, _)
Clean(o, k, i, at) ==
  IF i > Len(o) THEN TRUE
  ELSE LET op == o[i][1] a == o[i][2] out == o[i][4] IN
       IF out[1] = "err" /\ op # "exact" THEN out[3] = at /\ Clean(o, k, i + 1, at)
       ELSE /\ CASE op = "read" -> out \in ReadOut(ValLen, at, out[2], "none") /\ (out[2] = 0 => at >= ValLen \/ a = 0)
                 [] op = "exact" -> IF out[1] = "ok" THEN out \in ExactOut(ValLen, at, a, "none") ELSE out[3] \in at..Max(at, Min(at + a, ValLen))
                 [] op = "seek" -> out = <<"ok", a, a>>
                 [] op = "next" -> out \in NextOut(Items, at, "none")
                 [] OTHER -> out[1] = "same"
            /\ Clean(o, k, i + 1, out[3])
Recovers == \A s \in Slots : slot[s] # None => Clean(own[s], slot[s].k, 1, 0)
\* Without a breaking fault there is no error, except where exactness or the target asks for one.
Quiet == \A s \in Slots : \A i \in 1..Len(own[s]) : LET e == own[s][i] IN
           e[4][1] = "err" /\ e[1] \in {"read", "next", "ask"} => Breaks(e[3])

\* Histories for the harness: what is done, not what comes of it.
View == h
Emit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================

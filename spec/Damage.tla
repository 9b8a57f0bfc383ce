------------------------------ MODULE Damage ------------------------------
(***************************************************************************)
(* What can be wrong with a volume (C14): the environment of Walk.         *)
(*                                                                         *)
(* Every kind of structure of the format is a table of fields (offset and  *)
(* width in bytes).  A damage replaces the value of one field by a value   *)
(* of one class: the ends of the field's range, the sign border, values    *)
(* next to the right one, and values next to the distance from the         *)
(* beginning of the structure to the end of what contains it ("rest").     *)
(* A volume carries one damage, or two in the same structure, or two in    *)
(* structures of the same record that are read together.                   *)
(*                                                                         *)
(* Each state with a damage is a volume, made concrete by the harness for  *)
(* instances of the structure on a volume that has them all, and walked    *)
(* with every operation of the library; WalkTrace decides the outcome.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Singles, Pairs, Cross, \* which volumes are made
          Small, Around             \* single damages: numbers from 0 to Small, and up to Around next to the right one and to the rest

VARIABLE dmg
Field(o, w) == [o |-> o, w |-> w]
Bytes(o, n) == { Field(o + i, 1) : i \in 0..(n - 1) }

Kinds == {"boot", "record", "node", "attr", "resident", "nonresident", "runs", "entry", "root", "index entry", "file name", "key", "std", "objid", "volinfo"}
Fields(k) ==
  CASE k = "boot" -> { Field(0, 1), Field(3, 8), Field(11, 2), Field(13, 1), Field(40, 8), Field(48, 8), Field(56, 8), Field(64, 1), Field(68, 1), Field(72, 8), Field(510, 2) }
    [] k = "record" -> { Field(0, 4), Field(4, 2), Field(6, 2), Field(16, 2), Field(18, 2), Field(20, 2), Field(22, 2), Field(24, 4), Field(28, 4), Field(32, 8), Field(40, 2), Field(44, 4) }
    [] k = "node" -> { Field(0, 4), Field(4, 2), Field(6, 2), Field(16, 8), Field(24, 4), Field(28, 4), Field(32, 4), Field(36, 1) }
    [] k = "attr" -> { Field(0, 4), Field(4, 4), Field(8, 1), Field(9, 1), Field(10, 2), Field(12, 2), Field(14, 2) }
    [] k = "resident" -> { Field(4, 4), Field(8, 1), Field(9, 1), Field(10, 2), Field(16, 4), Field(20, 2), Field(22, 1) }
    [] k = "nonresident" -> { Field(4, 4), Field(8, 1), Field(9, 1), Field(10, 2), Field(16, 8), Field(24, 8), Field(32, 2), Field(34, 2), Field(40, 8), Field(48, 8), Field(56, 8) }
    [] k = "runs" -> Bytes(0, 6) \cup { Field(0, 16) }
    [] k = "entry" -> { Field(0, 4), Field(4, 2), Field(6, 1), Field(7, 1), Field(8, 8), Field(16, 8), Field(24, 2) }
    [] k = "root" -> { Field(0, 4), Field(4, 4), Field(8, 4), Field(12, 1), Field(16, 4), Field(20, 4), Field(24, 4), Field(28, 1) }
    [] k = "index entry" -> { Field(0, 8), Field(0, 2), Field(2, 2), Field(8, 2), Field(10, 2), Field(12, 1), Field(80, 1), Field(81, 1), Field(-8, 8) }
    [] k \in {"file name", "key"} -> { Field(0, 8), Field(8, 8), Field(16, 8), Field(24, 8), Field(32, 8), Field(40, 8), Field(56, 4), Field(64, 1), Field(65, 1) }
    [] k = "std" -> { Field(0, 8), Field(8, 8), Field(16, 8), Field(24, 8), Field(32, 4) }
    [] k = "objid" -> { Field(0, 8) }
    [] k = "volinfo" -> { Field(8, 1), Field(9, 1), Field(10, 2) }
(* Structures that are read together: the first contains the second, or they describe the same thing. *)
Together == { <<"record", "attr">>, <<"record", "resident">>, <<"record", "nonresident">>, <<"nonresident", "runs">>, <<"resident", "root">>,
              <<"resident", "file name">>, <<"root", "index entry">>, <<"root", "node">>, <<"node", "index entry">>, <<"index entry", "key">>,
              <<"resident", "entry">>, <<"entry", "nonresident">>, <<"resident", "std">>, <<"resident", "objid">>, <<"boot", "record">>,
              <<"attr", "attr">>, <<"entry", "entry">>, <<"index entry", "index entry">>, <<"nonresident", "nonresident">>, <<"node", "node">> }
(* A few fields of each kind carry sizes, places and links. *)
Weighty(k) ==
  CASE k = "boot" -> { Field(11, 2), Field(13, 1), Field(64, 1) }
    [] k = "record" -> { Field(6, 2), Field(20, 2), Field(24, 4), Field(28, 4), Field(32, 8) }
    [] k = "node" -> { Field(6, 2), Field(16, 8), Field(24, 4), Field(28, 4), Field(32, 4) }
    [] k = "attr" -> { Field(0, 4), Field(4, 4), Field(8, 1) }
    [] k = "resident" -> { Field(4, 4), Field(16, 4), Field(20, 2) }
    [] k = "nonresident" -> { Field(4, 4), Field(16, 8), Field(24, 8), Field(32, 2), Field(48, 8), Field(56, 8) }
    [] k = "runs" -> Bytes(0, 4)
    [] k = "entry" -> { Field(0, 4), Field(4, 2), Field(6, 1), Field(8, 8), Field(16, 8), Field(24, 2) }
    [] k = "root" -> { Field(8, 4), Field(16, 4), Field(20, 4) }
    [] k = "index entry" -> { Field(0, 2), Field(2, 2), Field(8, 2), Field(10, 2), Field(12, 1), Field(-8, 8) }
    [] k \in {"file name", "key"} -> { Field(64, 1), Field(65, 1), Field(0, 8) }
    [] k = "std" -> { Field(0, 8), Field(32, 4) }
    [] k = "objid" -> { Field(0, 8) }
    [] k = "volinfo" -> { Field(8, 1), Field(10, 2) }
Ends(w) == {"0", "1", "max", "sign"} \cup IF w > 1 THEN {"sign-1"} ELSE {"sign-1", "7", "8", "9", "16", "17"}
Near(w) == {"self-1", "self+1", "self-8", "self+8"}
Rest(w) == IF w \in {2, 4} THEN {"rest-8", "rest-1", "rest", "rest+1", "rest+8"} ELSE {}
\* a whole run list: one run that ends at the end of the range of byte positions, or next to it, or in the middle of the range
Whole == {"top-1", "top", "top+1", "half"}
Full(w) == IF w = 16 THEN Whole ELSE Ends(w) \cup Near(w) \cup Rest(w) \cup {"max-1", "swap", "double", "random", "2^31", "2^62"}
Some(w) == IF w = 16 THEN {} ELSE {"0", "max", "sign", "self+8"} \cup (IF w \in {2, 4} THEN {"rest", "rest+1", "rest-1"} ELSE IF w = 1 THEN {"1", "8", "17"} ELSE {"self-1"})
Few(w) == {"0", "max"} \cup (IF w \in {2, 4} THEN {"rest", "rest+1"} ELSE IF w = 1 THEN {"9"} ELSE {"sign"})

D(k, f, c) == [k |-> k, o |-> f.o, w |-> f.w, c |-> c]
Init == dmg = << >>
First == /\ dmg = << >> /\ (Singles \/ Pairs \/ Cross)
         /\ \E k \in Kinds : \E f \in Fields(k) : \E c \in Full(f.w) : dmg' = <<D(k, f, c)>>
\* sizes, offsets and counts: every small number, and every number around the right one and around the rest of the container
Numbers(w) == { <<"=", n>> : n \in 0..(IF w = 1 /\ Small > 255 THEN 255 ELSE Small) }
              \cup (IF w = 1 THEN {} ELSE { <<x, n>> : x \in {"self", "rest"}, n \in (-Around)..Around })
Number == /\ dmg = << >> /\ Singles
          /\ \E k \in Kinds : \E f \in Fields(k) : f.w <= 4 /\ \E x \in Numbers(f.w) : dmg' = <<D(k, f, x[1]) @@ [n |-> x[2]]>>
\* the second damage of the same structure, at a later field
Second == /\ Pairs /\ Len(dmg) = 1 /\ "n" \notin DOMAIN dmg[1] /\ dmg[1].c \in Some(dmg[1].w)
          /\ \E f \in Fields(dmg[1].k) : f.o > dmg[1].o /\ \E c \in Some(f.w) : dmg' = Append(dmg, D(dmg[1].k, f, c))
\* the second damage in a structure read together with the first
Other == /\ Cross /\ Len(dmg) = 1 /\ "n" \notin DOMAIN dmg[1] /\ dmg[1].c \in Few(dmg[1].w)
         /\ [o |-> dmg[1].o, w |-> dmg[1].w] \in Weighty(dmg[1].k)
         /\ \E k \in Kinds : <<dmg[1].k, k>> \in Together
                             /\ \E f \in Weighty(k) : \E c \in Few(f.w) : dmg' = Append(dmg, D(k, f, c) @@ [cross |-> TRUE])
Next == First \/ Number \/ Second \/ Other
Spec == Init /\ [][Next]_dmg
(* The fields lie within their structures and the weighty ones are among them. *)
Sane == \A k \in Kinds : Weighty(k) \subseteq Fields(k) /\ \A f \in Fields(k) : f.w \in {1, 2, 4, 8, 16}
Wanted == CASE Len(dmg) = 1 -> Singles [] Len(dmg) = 2 -> TRUE [] OTHER -> FALSE
Emit == Wanted => PrintT(ToJson([d |-> dmg]))
=============================================================================

------------------------------ MODULE Upcase ------------------------------
(***************************************************************************)
(* Comparison of names (C11): symbols are mapped through the volume's own  *)
(* folding table and compared as numbers from the front.                   *)
(*                                                                         *)
(* Machine: the loop that takes one unit of each name at a time.           *)
(* Contract: the declarative comparison of the mapped names, which is      *)
(* proved here to be a total preorder whose equivalence is equality of the *)
(* mapped names.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Units,      \* number of code units in play
          Values,     \* number of values they are folded to
          MaxLen,     \* longest name compared
          TriLen      \* longest name in the laws about three names

VARIABLES fold, phase, a, b, i, res
vars == <<fold, phase, a, b, i, res>>

Names(l) == UNION {[1..k -> 1..Units] : k \in 0..l}
Mapped(f, s) == [k \in 1..Len(s) |-> f[s[k]]]
Min(x, y) == IF x < y THEN x ELSE y
Diff(s, t) == {k \in 1..Min(Len(s), Len(t)) : s[k] # t[k]}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
Cmp(f, x, y) == LET s == Mapped(f, x)  t == Mapped(f, y) IN
  IF Diff(s, t) # {} THEN LET k == First(Diff(s, t)) IN IF s[k] < t[k] THEN -1 ELSE 1
  ELSE IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE 0

Init == fold = << >> /\ phase = "table" /\ a = << >> /\ b = << >> /\ i = 0 /\ res = 0
Fill == /\ phase = "table"
        /\ IF Len(fold) = Units THEN phase' = "ready" /\ UNCHANGED fold
           ELSE \E v \in 1..Values : fold' = Append(fold, v) /\ UNCHANGED phase
        /\ UNCHANGED <<a, b, i, res>>
Start == /\ phase = "ready" /\ \E x \in Names(MaxLen), y \in Names(MaxLen) : a' = x /\ b' = y
         /\ i' = 1 /\ phase' = "cmp" /\ UNCHANGED <<fold, res>>
Step == /\ phase = "cmp"
        /\ CASE i <= Len(a) /\ i <= Len(b) ->
                  LET x == fold[a[i]]  y == fold[b[i]] IN
                  IF x = y THEN i' = i + 1 /\ UNCHANGED <<phase, res>>
                  ELSE phase' = "done" /\ res' = (IF x < y THEN -1 ELSE 1) /\ UNCHANGED i
             [] i <= Len(a) /\ i > Len(b) -> phase' = "done" /\ res' = 1 /\ UNCHANGED i
             [] i > Len(a) /\ i <= Len(b) -> phase' = "done" /\ res' = -1 /\ UNCHANGED i
             [] OTHER -> phase' = "done" /\ res' = 0 /\ UNCHANGED i
        /\ UNCHANGED <<fold, a, b>>
Next == Fill \/ Start \/ Step
Spec == Init /\ [][Next]_vars

Correct == phase = "done" => res = Cmp(fold, a, b)
Laws == phase = "ready" =>
  LET N == Names(TriLen) IN
  /\ \A x, y \in N : Cmp(fold, x, y) = -Cmp(fold, y, x)
  /\ \A x, y \in N : (Cmp(fold, x, y) = 0) = (Mapped(fold, x) = Mapped(fold, y))
  /\ \A x, y, z \in N : Cmp(fold, x, y) <= 0 /\ Cmp(fold, y, z) <= 0 => Cmp(fold, x, z) <= 0
  /\ \A x, y \in N : Len(x) < Len(y) /\ SubSeq(Mapped(fold, y), 1, Len(x)) = Mapped(fold, x) => Cmp(fold, x, y) = -1
Contract == Correct /\ Laws
(* One row per name: its comparison with every other name, names numbered by length and then as numbers. *)
RECURSIVE AllOf(_)
AllOf(k) == IF k = 0 THEN << << >> >>
            ELSE LET p == AllOf(k - 1) IN
                 [n \in 1..(Len(p) * Units) |-> Append(p[((n - 1) \div Units) + 1], ((n - 1) % Units) + 1)]
RECURSIVE UpTo(_)
UpTo(k) == IF k = 0 THEN AllOf(0) ELSE UpTo(k - 1) \o AllOf(k)
Emit == phase = "ready" =>
  LET q == UpTo(MaxLen) IN
  PrintT(ToJson([fold |-> fold, names |-> q,
                 cmp |-> [x \in 1..Len(q) |-> [y \in 1..Len(q) |-> Cmp(fold, q[x], q[y])]]]))
=============================================================================

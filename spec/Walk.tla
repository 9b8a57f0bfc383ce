------------------------------- MODULE Walk -------------------------------
(***************************************************************************)
(* The protocol of every iteration over a finite volume, whatever its      *)
(* bytes say (C14): a call delivers an item, an error or the end; there    *)
(* are never more items than the volume can hold, so that an iteration     *)
(* comes to its end or to an error; the end is final.  An error need not   *)
(* be: some iterations can go on behind it.  There is no other outcome.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Bounds      \* how many items there can be
VARIABLES bound, mode, items, calls
vars == <<bound, mode, items, calls>>
Outcomes == {"item", "err", "end"}
Init == bound \in Bounds /\ mode = "running" /\ items = 0 /\ calls = 0
\* n calls in a row with outcome o
CanDo(o, n) == /\ o \in Outcomes /\ n >= 1
               /\ o = "item" => mode # "ended" /\ items + n <= bound
               /\ o = "err" => mode # "ended"
After(o) == CASE o = "end" -> "ended" [] o = "err" -> "failed" [] OTHER -> mode
Call(o, n) == /\ CanDo(o, n)
              /\ mode' = After(o)
              /\ items' = items + IF o = "item" THEN n ELSE 0
              /\ calls' = IF mode = "running" THEN calls + (IF o = "item" THEN n ELSE 1) ELSE calls
              /\ UNCHANGED bound
Next == \E o \in Outcomes : Call(o, 1)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* The steps to the end or the first error are bounded by what the volume holds, and one of the two is reached. *)
Bounded == calls <= bound + 1 /\ items <= bound
Reached == <>(mode # "running")
EndIsFinal == [][mode = "ended" => mode' = "ended" /\ items' = items]_vars
===========================================================================

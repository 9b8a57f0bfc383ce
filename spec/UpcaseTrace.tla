--------------------------- MODULE UpcaseTrace ---------------------------
(* Recorded comparisons of long names: every event holds both names, the entries of the volume's table for their units,
   and the answers of the library; the comparison of Upcase must give the same. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Units, Values, MaxLen, TriLen
VARIABLES fold, phase, a, b, i, res, tid
vars == <<fold, phase, a, b, i, res, tid>>
U == INSTANCE Upcase
T == ndJsonDeserialize(IOEnv.TRACE)
(* The table excerpt is a sequence of pairs <<unit, value>> without repetition. *)
Excerpt(tab) == [c \in {tab[k][1] : k \in 1..Len(tab)} |-> LET k == CHOOSE k \in 1..Len(tab) : tab[k][1] = c IN tab[k][2]]
Ok(e) == LET r == U!Cmp(Excerpt(e.tab), e.x, e.y) IN \A k \in 1..Len(e.res) : e.res[k] = (IF e.rev[k] THEN -r ELSE r)
Init == tid \in 1..Len(T) /\ i = 0 /\ fold = << >> /\ phase = "trace" /\ a = << >> /\ b = << >> /\ res = 0
Next == /\ i < Len(T[tid].ev)
        /\ IF Ok(T[tid].ev[i + 1]) THEN i' = i + 1 ELSE PrintT("REJECT " \o ToString(tid) \o " " \o ToString(i + 1)) /\ FALSE
        /\ UNCHANGED <<fold, phase, a, b, res, tid>>
Spec == Init /\ [][Next]_vars
===========================================================================

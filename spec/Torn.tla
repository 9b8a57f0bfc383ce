-------------------------------- MODULE Torn --------------------------------
(***************************************************************************)
(* Multi-sector records and power loss (C05).                              *)
(*                                                                         *)
(* A record has NS sectors.  Writing version v stores the update sequence  *)
(* number of v at the end of every sector and the words that belong there  *)
(* in the array in the first sector.  Sectors reach the disk one by one in *)
(* any order; power can be lost between any two of them, after which the   *)
(* record is either read as it is or written again (with the next number,  *)
(* whatever is on the disk).                                               *)
(*                                                                         *)
(* The reader takes the number from the first sector and compares it with  *)
(* the end of every sector that the array covers.                          *)
(*                                                                         *)
(* Tails: a version's own last words may happen to equal update sequence   *)
(* numbers; the class of every tail is part of the configuration:          *)
(*   "x" unrelated, "own" the number of its own version, "next" the one of *)
(*   the following version.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SectorCounts, MaxVersion, TailClasses

VARIABLES ns, cls, cover, disk, writing, todo
vars == <<ns, cls, cover, disk, writing, todo>>

Usn(v) == v                     \* numbers of different versions differ
\* What stands on the disk: sector i as of version disk[i].
Stored(i) == [ver |-> disk[i], last |-> Usn(disk[i])]

Init == /\ ns \in SectorCounts
        /\ cls \in TailClasses
        /\ cover \in -1..(ns + 1)
        /\ disk = [i \in 1..ns |-> 0]
        /\ writing = 0 /\ todo = {}

\* The writer starts over with a new version; after a crash whatever had not been persisted is lost.
Begin == /\ writing < (IF cover = ns THEN MaxVersion ELSE 1)
         /\ writing' = writing + 1
         /\ todo' = 1..ns
         /\ UNCHANGED <<ns, cls, cover, disk>>
Persist == \E i \in todo : /\ disk' = [disk EXCEPT ![i] = writing]
                           /\ todo' = todo \ {i}
                           /\ UNCHANGED <<ns, cls, cover, writing>>
Next == Begin \/ Persist
Spec == Init /\ [][Next]_vars

(* ---- the reader ------------------------------------------------------------ *)
\* Sectors the array has entries for (-1: the count does not even include the update sequence number).
Covered == cover
Usn0 == Stored(1).last
SectorsMatch == \A i \in 1..(IF Covered > ns THEN ns ELSE Covered) : Stored(i).last = Usn0
\* The protection must cover the record, neither less nor more.
Accepts == Covered = ns /\ SectorsMatch
\* The version a reader that accepts the record sees in sector i: content and restored tail.
Seen(i) == disk[i]

(* ---- the property ------------------------------------------------------------ *)
OneWrite == \E v \in 0..MaxVersion : \A i \in 1..ns : disk[i] = v
NeverTorn == Accepts => OneWrite
IntactAccepted == (OneWrite /\ cover = ns) => Accepts
Property == NeverTorn /\ IntactAccepted

Emit == PrintT(ToJson([ns |-> ns, cls |-> cls, cover |-> cover, disk |-> disk, ok |-> Accepts,
                       ver |-> IF Accepts THEN disk[1] ELSE -1]))
=============================================================================

------------------------------ MODULE Position ------------------------------
(***************************************************************************)
(* Where the objects stored in a stream are on the device (C18).           *)
(*                                                                         *)
(* Records of the Master File Table ("mft"), nodes of an index ("index")   *)
(* and the entries of an attribute list ("list") are stored back to back   *)
(* in a stream whose clusters lie anywhere on the device.  The contract is *)
(* the map Loc from the units of the stream to places on the device: an    *)
(* object at an offset of the stream is at Loc of its unit, or nowhere if  *)
(* that unit is in a hole.                                                 *)
(*                                                                         *)
(* The library keeps one position per record and adds the offset inside    *)
(* the record to it (Claim).  TLC checks that this is exact wherever a     *)
(* record is not torn apart by a border between two runs (Exact), and      *)
(* prints the map and the torn units of every layout.                      *)
(*                                                                         *)
(* A cluster has 2 units, a record has Ru units (1: two records in each    *)
(* cluster).                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Rus, MaxRuns, Records, Nodes, ListClusters

Clusters(k, ru) == IF k = "list" THEN ListClusters
                   ELSE ((IF k = "mft" THEN Records ELSE Nodes) * ru + 1) \div 2
RecClusters(ru) == (ru + 1) \div 2

\* Lengths that put a border before, at and behind the border of a record, in the first and in later records.
Lens(k, ru) == LET rc == RecClusters(ru) IN
  IF k = "list" THEN {1, 2}
  ELSE { l \in {1, 2, 3, rc - 1, rc, rc + 1, 2 * rc - 1, 2 * rc, 2 * rc + 1, 3 * rc + 1} : l >= 1 }

\* A run is a hole, directly behind the run before it, in front of everything before it or somewhere behind it.
Places == {"hole", "next", "front", "back"}

VARIABLES kind, ru, runs, done
vars == <<kind, ru, runs, done>>

RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE Sum(s, n - 1) + s[n].len
Total == Clusters(kind, ru)
Used == Sum(runs, Len(runs))

(* ---- where the runs are: units from 1000, in front down from 1000, behind with a gap ----------------- *)
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : y >= x
Real == { r \in 1..Len(runs) : runs[r].at # "hole" }
High == MaxOf({ runs[r].base + 2 * runs[r].len : r \in Real })
Low == MinOf({ runs[r].base : r \in Real })
NewBase(len, at) ==
  IF at = "hole" THEN -1
  ELSE IF Real = {} THEN 1000
  ELSE IF at = "front" THEN Low - 2 * len - 2
  ELSE IF at = "next" /\ Len(runs) \in Real /\ High = runs[Len(runs)].base + 2 * runs[Len(runs)].len THEN High
  ELSE High + 4

RunOf(u) == CHOOSE r \in 1..Len(runs) : runs[r].start <= u /\ u < runs[r].start + 2 * runs[r].len
Loc(u) == LET r == RunOf(u) IN IF runs[r].at = "hole" THEN -1 ELSE runs[r].base + u - runs[r].start

Units == 2 * Total
RecordOf(u) == u - (u % ru)

(* ---- the library --------------------------------------------------------------------------------------- *)
\* An entry of a list is where the cursor stands; inside a record the offset is added to the record's place.
Claim(u) == IF kind = "list" THEN Loc(u)
            ELSE IF Loc(RecordOf(u)) = -1 THEN -1 ELSE Loc(RecordOf(u)) + (u % ru)
Torn(u) == Claim(u) # Loc(u)

Init == kind \in Kinds /\ ru \in (IF kind = "list" THEN {2} ELSE Rus) /\ runs = << >> /\ done = FALSE
Add(len, at) ==
  /\ ~done /\ len >= 1 /\ Used + len <= Total
  /\ Len(runs) + 1 < MaxRuns \/ Used + len = Total
  \* the table's first record is where the boot sector says, in one piece
  /\ (kind = "mft" /\ Len(runs) = 0) => (at = "back" /\ len >= RecClusters(ru))
  /\ (kind = "list") => at # "hole"
  /\ runs' = Append(runs, [len |-> len, at |-> at, base |-> NewBase(len, at), start |-> 2 * Used])
  /\ done' = (Used + len = Total)
  /\ UNCHANGED <<kind, ru>>
Next == \E len \in Lens(kind, ru) \cup {Total - Used}, at \in Places : Add(len, at)
Spec == Init /\ [][Next]_vars

(* ---- checked -------------------------------------------------------------------------------------------- *)
OneRun(u) == LET s == RecordOf(u) IN RunOf(s) = RunOf(u)
Exact == done => \A u \in 0..(Units - 1) : OneRun(u) => ~Torn(u)
Apart == done => \A r, s \in Real : r < s => \/ runs[r].base + 2 * runs[r].len <= runs[s].base
                                               \/ runs[s].base + 2 * runs[s].len <= runs[r].base

Emit == done => PrintT(ToJson([kind |-> kind, ru |-> ru, runs |-> runs, loc |-> [u \in 1..Units |-> Loc(u - 1)],
                               torn |-> [u \in 1..Units |-> Torn(u - 1)]]))
=============================================================================

-------------------------------- MODULE Vcn --------------------------------
(***************************************************************************)
(* References to index nodes (C12).                                        *)
(*                                                                         *)
(* An index allocation is a stream of units (a cluster, or 512 bytes if an *)
(* index record is smaller than a cluster).  A record covers U units and   *)
(* states the number it believes to be stored at.  Records may lie at any  *)
(* unit, state any number, and the stream may end anywhere, also in the    *)
(* middle of a unit; everything else is junk.                              *)
(*                                                                         *)
(* Machine: the steps of the library (multiply, seek, bounds, length,      *)
(* signature, stated number), each of which may end with an error.         *)
(* Contract: following reference r yields the record that starts at unit   *)
(* r, lies inside the stream as a whole and states r; anything else is an  *)
(* error.  Iterating all records yields the record at unit 0, U, 2U, ...   *)
(* up to the end of the stream, and an error at the first one that is no   *)
(* complete record.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,    \* set of <<U, W>>: units per record and units in the allocation
          MaxRecs,
          Far        \* numbers far outside, as names: the harness knows their values

VARIABLES u, w, recs, size, alloc, phase, r, pos, res, seq
vars == <<u, w, recs, size, alloc, phase, r, pos, res, seq>>
(* recs: set of [at, says]; size counts half units; alloc: is there an allocation at all? *)

Covered == UNION {rc.at..(rc.at + u - 1) : rc \in recs}
Says == (0..(w + 1)) \cup {-1, -2} \cup {1000 + n : n \in 0..w} \cup {2000 + n : n \in 0..w}   \* 1000 + n: n + 2^32; 2000 + n: n + 2^63
Init == /\ \E s \in Shapes : u = s[1] /\ w = s[2]
        /\ recs = {} /\ size = 0 /\ alloc = TRUE /\ phase = "build" /\ r = 0 /\ pos = 0 /\ res = "none" /\ seq = << >>
Add == /\ phase = "build" /\ Cardinality(recs) < MaxRecs
       /\ \E at \in 0..(w - u) : \E says \in Says :
            /\ (at..(at + u - 1)) \cap Covered = {}
            /\ \A rc \in recs : rc.at < at                \* added from left to right
            /\ says \in {at, 0, u, at + 1, at \div u, at * 2, -1, w + 1, 1000 + at, 2000 + at}
            /\ recs' = recs \cup {[at |-> at, says |-> says]}
       /\ UNCHANGED <<u, w, size, alloc, phase, r, pos, res, seq>>
Done == /\ phase = "build"
        /\ \E s \in {2 * w, 2 * w - 1, 2 * w - 2, 2 * (w - u) + 1, 2 * (w - u)} : s >= 0 /\ size' = s
        /\ \E a \in {TRUE} \cup (IF Cardinality(recs) = 1 THEN {FALSE} ELSE {}) : alloc' = a
        /\ phase' = "ready"
        /\ UNCHANGED <<u, w, recs, r, pos, res, seq>>

(* ---- machine: follow ---- *)
Ask == /\ phase \in {"ready"}
       /\ \E q \in (-2)..(w + 2) : r' = q /\ pos' = 2 * q
       /\ phase' = "bounds" /\ res' = "none"
       /\ UNCHANGED <<u, w, recs, size, alloc, seq>>
Fail == phase' = "answered" /\ res' = "error" /\ UNCHANGED <<pos>>
Bounds == /\ phase = "bounds"
          /\ IF ~alloc \/ pos < 0 \/ pos >= size THEN Fail ELSE phase' = "length" /\ UNCHANGED <<pos, res>>
          /\ UNCHANGED <<u, w, recs, size, alloc, r, seq>>
Length == /\ phase = "length"
          /\ IF size - pos < 2 * u THEN Fail ELSE phase' = "signature" /\ UNCHANGED <<pos, res>>
          /\ UNCHANGED <<u, w, recs, size, alloc, r, seq>>
At(p) == {rc \in recs : 2 * rc.at = p}
Signature == /\ phase = "signature"
             /\ IF At(pos) = {} THEN Fail ELSE phase' = "number" /\ UNCHANGED <<pos, res>>
             /\ UNCHANGED <<u, w, recs, size, alloc, r, seq>>
Number == /\ phase = "number"
          /\ IF \E rc \in At(pos) : rc.says # r THEN Fail ELSE phase' = "answered" /\ res' = "node" /\ UNCHANGED pos
          /\ UNCHANGED <<u, w, recs, size, alloc, r, seq>>

(* ---- machine: all records ---- *)
StartAll == /\ phase = "ready" /\ phase' = "all" /\ pos' = 0 /\ seq' = << >>
            /\ UNCHANGED <<u, w, recs, size, alloc, r, res>>
AllStep == /\ phase = "all"
           /\ IF ~alloc \/ pos >= size THEN phase' = "listed" /\ res' = "end" /\ UNCHANGED <<pos, seq>>
              ELSE IF size - pos < 2 * u \/ At(pos) = {} THEN phase' = "listed" /\ res' = "error" /\ UNCHANGED <<pos, seq>>
              ELSE seq' = Append(seq, pos \div 2) /\ pos' = pos + 2 * u /\ UNCHANGED <<phase, res>>
           /\ UNCHANGED <<u, w, recs, size, alloc, r>>
Next == Add \/ Done \/ Ask \/ Bounds \/ Length \/ Signature \/ Number \/ StartAll \/ AllStep
Spec == Init /\ [][Next]_vars

(* ---- contract ---- *)
Whole(at) == 2 * (at + u) <= size
Right(q) == alloc /\ \E rc \in recs : rc.at = q /\ rc.says = q /\ Whole(q)
Followed == phase = "answered" => (res = "node") = Right(r)
Listed == phase = "listed" =>
            /\ \A i \in 1..Len(seq) : seq[i] = (i - 1) * u
            /\ \A i \in 1..Len(seq) : Whole(seq[i]) /\ \E rc \in recs : rc.at = seq[i]
            /\ res = "end" => (~alloc \/ 2 * Len(seq) * u >= size)
            /\ res = "error" => ~(Whole(Len(seq) * u) /\ \E rc \in recs : rc.at = Len(seq) * u)
Contract == Followed /\ Listed
Set2Seq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i].at < q[j].at
RECURSIVE ListFrom(_)
ListFrom(k) == IF Whole(k * u) /\ (\E rc \in recs : rc.at = k * u) THEN <<k * u>> \o ListFrom(k + 1) ELSE << >>
Emit == phase = "ready" =>
  LET l == IF alloc THEN ListFrom(0) ELSE << >> IN
  PrintT(ToJson([u |-> u, w |-> w, recs |-> Set2Seq(recs), size |-> size, alloc |-> alloc,
                 good |-> [q \in 1..(w + 5) |-> Right(q - 3)],
                 far |-> Far,
                 list |-> l, clean |-> (~alloc \/ 2 * Len(l) * u >= size)]))
=============================================================================

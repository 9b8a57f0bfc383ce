------------------------------- MODULE Attrs -------------------------------
(***************************************************************************)
(* Attributes of a file, spread over records (C07), and lookups (C08).     *)
(*                                                                         *)
(* A file is a sequence of logical attributes, ordered as NTFS orders them *)
(* (type, then name).  A logical attribute has one or more extents; every  *)
(* extent is an attribute in some record: the base record (0) or an        *)
(* extension record.  If anything lies outside the base record there is an *)
(* attribute list in the base record, one entry per extent, in order; it   *)
(* may also exist without need, and be resident or not.                    *)
(*                                                                         *)
(* Contract: iteration yields 1..Len(attrs) exactly once each, with all    *)
(* extents; raw iteration of a record yields exactly its physical          *)
(* attributes in order; lookups select by type, name, namespace, parent.   *)
(*                                                                         *)
(* Machine: raw iteration of the base record; when the list turns up, its  *)
(* entries are walked first, skipping what the raw iteration sees anyway   *)
(* and what continues another attribute; then raw iteration goes on        *)
(* without the continuations.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* sequence of [t, nm, res, ns, par]: catalogue, in NTFS order of (t, nm)
          MaxAttrs, MaxExt, NRecs,
          Lists,      \* subset of {0, 1, 2}: no list, resident list, non-resident list
          Insts,      \* instance numbering policies (interpreted by the harness)
          Dirs,       \* subset of BOOLEAN: is the file a directory
          Queries     \* names asked for

STD == 16
LIST == 32
NAME == 48
VOLNAME == 96
VOLINFO == 112
DATA == 128
IROOT == 144
IALLOC == 160
BaseOnly == {STD, VOLNAME, VOLINFO}

\* Name codes: 0 is the empty name, 2k-1 and 2k are equal under case folding and different otherwise.
Fold(nm) == (nm + 1) \div 2
I30 == 7

VARIABLES attrs,      \* sequence of [k, place]: kind index and record of every extent
          list, inst, dir, phase, raw, li, out
vars == <<attrs, list, inst, dir, phase, raw, li, out>>

K(a) == Kinds[attrs[a].k]
Ext(a) == Len(attrs[a].place)
Outside == \E a \in 1..Len(attrs) : \E e \in 1..Ext(a) : attrs[a].place[e] # 0

(* ---- physical layout ----------------------------------------------------------------- *)
\* All extents in NTFS order: this is also the attribute list.
RECURSIVE AllFrom(_)
AllFrom(a) == IF a > Len(attrs) THEN << >> ELSE [e \in 1..Ext(a) |-> <<a, e>>] \o AllFrom(a + 1)
All == AllFrom(1)
RecOf(x) == attrs[x[1]].place[x[2]]
Entries == All
InRec(r) == SelectSeq(All, LAMBDA x : RecOf(x) = r)
\* The list itself stands between the types below and above it.
Base == IF list = 0 THEN InRec(0)
        ELSE SelectSeq(InRec(0), LAMBDA x : K(x[1]).t < LIST) \o << <<0, 1>> >> \o SelectSeq(InRec(0), LAMBDA x : K(x[1]).t > LIST)

(* ---- machine ---------------------------------------------------------------------------- *)
Init == /\ attrs = << >> /\ list = 0 /\ inst = 0 /\ dir = FALSE /\ phase = "build" /\ raw = 1 /\ li = 0 /\ out = << >>

Places(n) == [1..n -> 0..(NRecs - 1)]
\* Two attributes may share type and name only if they are resident (as $FILE_NAME does).
MayFollow(j, k) == \/ Kinds[k].t > Kinds[j].t
                   \/ Kinds[k].t = Kinds[j].t /\ Kinds[k].nm > Kinds[j].nm
                   \/ Kinds[k].t = NAME /\ Kinds[j].t = NAME
AddAttr == /\ phase = "build" /\ Len(attrs) < MaxAttrs
           /\ \E k \in 1..Len(Kinds) :
                 /\ Len(attrs) > 0 => MayFollow(attrs[Len(attrs)].k, k)
                 /\ \E n \in 1..(IF Kinds[k].res THEN 1 ELSE MaxExt) : \E p \in Places(n) :
                       /\ Kinds[k].t \in BaseOnly => p[1] = 0
                       /\ attrs' = Append(attrs, [k |-> k, place |-> p])
           /\ UNCHANGED <<list, inst, dir, phase, raw, li, out>>
\* Extents that continue an attribute need a list even if all are in the base record.
NeedsList == Outside \/ \E a \in 1..Len(attrs) : Ext(a) > 1
\* Extension records are numbered in the order of their first use.
FirstUse(r) == IF InRec(r) = << >> THEN 1000 ELSE CHOOSE i \in 1..Len(All) : All[i] = InRec(r)[1]
Canonical == \A r \in 1..(NRecs - 2) : FirstUse(r) <= FirstUse(r + 1)
Start == /\ phase = "build" /\ Len(attrs) > 0 /\ Canonical
         /\ \E l \in Lists : /\ NeedsList => l # 0
                             /\ list' = l
         /\ inst' \in (IF list' = 0 THEN {0} ELSE Insts)
         /\ dir' \in Dirs
         /\ phase' = "iter" /\ raw' = 1 /\ li' = 0 /\ out' = << >>
         /\ UNCHANGED attrs

\* What belongs to the value that starts at list position i: the following entries of the same type and name that do not start at 0.
RECURSIVE Connected(_, _)
Connected(i, x) == IF i > Len(Entries) THEN << >>
                   ELSE LET y == Entries[i] IN
                        IF y[2] # 1 /\ K(y[1]).t = K(x[1]).t /\ K(y[1]).nm = K(x[1]).nm THEN <<y>> \o Connected(i + 1, x)
                        ELSE << >>
PosOf(x) == CHOOSE i \in 1..Len(Entries) : Entries[i] = x
Value(x) == IF list = 0 \/ K(x[1]).res THEN <<x>> ELSE <<x>> \o Connected(PosOf(x) + 1, x)
Yield(x) == out' = Append(out, Value(x))

ListStep == /\ phase = "iter" /\ li > 0 /\ li <= Len(Entries)
            /\ LET x == Entries[li] IN
               IF RecOf(x) = 0 \/ x[2] # 1 THEN UNCHANGED out ELSE Yield(x)
            /\ li' = li + 1
            /\ UNCHANGED <<attrs, list, inst, dir, phase, raw>>
RawStep == /\ phase = "iter" /\ ~(li > 0 /\ li <= Len(Entries))
           /\ IF raw > Len(Base) THEN phase' = "done" /\ UNCHANGED <<raw, li, out>>
              ELSE LET x == Base[raw] IN
                   /\ raw' = raw + 1 /\ UNCHANGED phase
                   /\ IF x[1] = 0 THEN li' = 1 /\ UNCHANGED out
                      ELSE /\ UNCHANGED li
                           /\ IF li > 0 /\ x[2] # 1 THEN UNCHANGED out ELSE Yield(x)
           /\ UNCHANGED <<attrs, list, inst, dir>>
Next == AddAttr \/ Start \/ ListStep \/ RawStep
Spec == Init /\ [][Next]_vars

(* ---- contract of iteration -------------------------------------------------------------- *)
OutIdx == [i \in 1..Len(out) |-> out[i][1][1]]
Once == \A i, j \in 1..Len(out) : i # j => OutIdx[i] # OutIdx[j]
Complete == \A i \in 1..Len(out) : out[i] = [e \in 1..Ext(OutIdx[i]) |-> <<OutIdx[i], e>>]
Everything == phase = "done" => Len(out) = Len(attrs)
Iteration == Once /\ Complete /\ Everything

(* ---- lookups ------------------------------------------------------------------------------ *)
\* A lookup answers with an element of the set of matches; with the first one if their order is that of a single record.
Matches(P(_)) == {a \in 1..Len(attrs) : P(a)}
First(S) == CHOOSE a \in S : \A b \in S : a <= b
Answer(S) == IF S = {} THEN {} ELSE IF list = 0 THEN {First(S)} ELSE S
DataFor(q) == Answer(Matches(LAMBDA a : K(a).t = DATA /\ IF q = 0 THEN K(a).nm = 0 ELSE Fold(K(a).nm) = Fold(q) /\ K(a).nm # 0))
NameFor(ns, par) == Answer(Matches(LAMBDA a : K(a).t = NAME /\ (ns = 9 \/ K(a).ns = ns) /\ (par = 9 \/ K(a).par = par)))
TypeFor(t) == Answer(Matches(LAMBDA a : K(a).t = t))
IndexFor(t) == Answer(Matches(LAMBDA a : K(a).t = t /\ K(a).nm = I30))
Parents == {Kinds[k].par : k \in 1..Len(Kinds)}
NameQueries == {<<ns, par>> : ns \in (0..3) \cup {9}, par \in Parents \cup {8, 9}}

Emit == phase = "iter" /\ raw = 1 /\ li = 0 =>
  PrintT(ToJson([attrs |-> [a \in 1..Len(attrs) |-> [t |-> K(a).t, nm |-> K(a).nm, res |-> K(a).res, ns |-> K(a).ns, par |-> K(a).par, x |-> K(a).x, place |-> attrs[a].place]],
                 list |-> list, inst |-> inst, dir |-> dir, nrecs |-> NRecs,
                 base |-> Base, recs |-> [r \in 1..(NRecs - 1) |-> InRec(r)], entries |-> Entries,
                 data |-> {<<q, DataFor(q)>> : q \in Queries},
                 names |-> IF \E a \in 1..Len(attrs) : K(a).t = NAME THEN {<<q[1], q[2], NameFor(q[1], q[2])>> : q \in NameQueries} ELSE {},
                 std |-> TypeFor(STD), volname |-> TypeFor(VOLNAME), volinfo |-> TypeFor(VOLINFO),
                 iroot |-> IndexFor(IROOT), ialloc |-> IndexFor(IALLOC)]))
=============================================================================

------------------------------ MODULE Contain ------------------------------
(***************************************************************************)
(* Structures inside structures (C20): what a walk over a structure with   *)
(* arbitrary declared sizes and offsets may deliver.                       *)
(*                                                                         *)
(* The structures of NTFS are nested: attributes in the used part of a     *)
(* record, names, values and run lists in attributes, entries in lists     *)
(* and index nodes, keys in entries.  Each declares its own size and the   *)
(* offsets of its parts.  A case fixes the declared numbers; the walk then *)
(* visits the parts in order with a cursor.                                *)
(*                                                                         *)
(* Contract: everything delivered lies inside its container, a             *)
(* contradiction is an error and ends the walk, and what just fits is      *)
(* delivered.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Parts, Dense
HUGE == 2000000000      \* stands for every number too large for anything
REC == 1024
P0 == 56                \* first place for attributes in a record of 1024 bytes
ROOM == 64

VARIABLES part, c, pc, pos, out
vars == <<part, c, pc, pos, out>>
Ev(k, o, n) == [k |-> k, o |-> o, n |-> n]
Near(S) == UNION {{x - 1, x, x + 1} : x \in S}
Non(S) == {x \in S : x >= 0}
U16(S) == {x \in S : x >= 0 /\ x <= 65535}

Init == /\ part \in Parts /\ c = << >> /\ pc = "pick" /\ pos = 0 /\ out = << >>
Set(x) == /\ c' = x /\ pc' = "open" /\ UNCHANGED <<part, pos, out>>

(* ---- declared numbers ---------------------------------------------------------------------- *)
PickRecord == \E a \in {0, 56, 100, 104, 1023, 1024, 1025, HUGE} : \E f \in {56, 64, 984, 988, 1000, 1015, 1016, 1020, 1023, 1024, 1025, 65535} :
              \E u \in Non(Near({f, f + 4, f + 16, f + 24, f + 32, f + 36, a}) \cup {0, HUGE}) :
              \E t \in BOOLEAN :       \* is there an end marker behind the attribute, or the beginning of another one?
                 Set([A |-> a, F |-> f, U |-> u, T |-> t])
AttrLens == {0, 8, 15, 16, 23, 24, 25, 31, 32, 33, 40, ROOM - 1, ROOM, ROOM + 1, HUGE}
PickAttr == \E l \in AttrLens :
            \E nn \in {<<0, 0>>, <<24, 0>>, <<24, 1>>, <<0, 255>>} \cup {<<x, y>> : x \in U16({24, l - 4, l - 3, l - 2, l - 1, l, l + 1, 65535}), y \in {1, 2, 255}} :
            \E vo \in U16({24, l - 8, l - 1, l, l + 1, 65535}) :
            \E vl \in Non({0, 1, 8, l - vo - 1, l - vo, l - vo + 1, HUGE}) :
               /\ nn[1] = 0 \/ nn[1] >= 24
               /\ vo >= 24
               /\ Dense \/ nn \in {<<0, 0>>, <<24, 1>>} \/ (vo = 24 /\ vl \in {0, 8})
               /\ Set([L |-> l, NO |-> nn[1], NL |-> nn[2], VO |-> vo, VL |-> vl])
\* A run of three bytes follows upon the next without end.
PickNr == \E l \in {0, 16, 24, 63, 64, 65, 66, 67, 72, 2 * ROOM - 1, 2 * ROOM, 2 * ROOM + 1, HUGE} :
          \E ro \in U16({64, l - 7, l - 6, l - 4, l - 3, l - 2, l - 1, l, l + 1, l + 3, 65535}) :
          \E nl \in {0, 1, 255} :
             /\ ro >= 64
             /\ Set([L |-> l, RO |-> ro, NL |-> nl, NO |-> 64])
PickList == \E rest \in {0, 1, 25, 26, 27, 32, 40} : \E el \in Non(Near({26, rest}) \cup {0, 8, 28, 32, 65535}) :
            \E nl \in {0, 1, 2, 3, 4, 7, 255} : \E nr \in BOOLEAN :
               Set([REST |-> rest, EL |-> el, NL |-> nl, NR |-> nr])
PickRoot == \E v \in {0, 1, 16, 31, 32, 33, 47, 48, 49, 64} :
            \E eo \in Non(Near({16, v - 16}) \cup {0, 24, HUGE}) :
            \E us \in Non(Near({eo, eo + 16, v - 16, 16}) \cup {0, HUGE}) :
               Set([V |-> v, EO |-> eo, US |-> us])
PickNode == \E al \in {0, 15, 16, 32, 40, 56, 999, 1000, 1001, HUGE} :
            \E eo \in Non(Near({16, 24, 24 + 16, al}) \cup {0, HUGE}) :
            \E us \in Non(Near({eo, eo + 16, al, 16}) \cup {0, HUGE}) :
               \* entries do not overlap the update sequence array (16..22 behind the header)
               /\ eo >= 24 \/ eo < 16
               /\ Set([AL |-> al, EO |-> eo, US |-> us])
PickEntry == \E w \in {16, 24, 32, 40, 41} : \E el \in Non(Near({16, 24, 32, w}) \cup {0, 65535}) :
             \E kl \in Non(Near({el - 16, el - 24}) \cup {0, 1, 8, 65535}) : \E fl \in {0, 1, 2, 3} : \E inrec \in BOOLEAN :
                /\ kl <= 65535
                /\ Set([W |-> w, EL |-> el, KL |-> kl, FL |-> fl, NR |-> inrec])
\* Sizes of a non-resident value against its two clusters of 512 bytes.
PickValue == \E d \in {0, 1, 511, 512, 513, 1023, 1024, 1025, 2000, HUGE} : \E i \in {0, 1, 512, 1024, d, d + 1, HUGE} : \E k \in 0..2 : \E sp \in BOOLEAN :
                Set([D |-> d, I |-> i, K |-> k, SP |-> sp])
Pick == /\ pc = "pick"
        /\ CASE part = "record" -> PickRecord [] part = "attr" -> PickAttr [] part = "nr" -> PickNr [] part = "list" -> PickList
             [] part = "root" -> PickRoot [] part = "node" -> PickNode [] part = "entry" -> PickEntry [] part = "value" -> PickValue

(* ---- the walk --------------------------------------------------------------------------------- *)
Go(p, x, evs) == /\ pc' = p /\ pos' = x /\ out' = out \o evs /\ UNCHANGED <<part, c>>
Fail == Go("done", pos, <<Ev("error", 0, 0)>>)
End == Go("done", pos, <<Ev("end", 0, 0)>>)
AnyEnd == Go("done", pos, <<Ev("any", 0, 0)>>)    \* no or an error: nothing may be delivered any more

\* record
RecOpen == IF c.A > REC \/ c.U > c.A \/ c.F > c.U THEN Fail ELSE Go("attrs", c.F, <<Ev("open", 0, c.A)>>)
RecAttrs == IF pos >= c.U THEN End
            ELSE IF REC - pos < 4 THEN AnyEnd
            ELSE IF pos = c.F THEN IF c.U - pos < 32 THEN Fail ELSE Go("attrs", pos + 32, <<Ev("attr", pos, 32), Ev("name", 0, 0), Ev("value", pos + 24, 8)>>)
            ELSE IF c.U - pos < 4 THEN AnyEnd ELSE IF c.T THEN End ELSE Fail
\* a single attribute in a record that uses ROOM (or 2 * ROOM) bytes for it
AttrEnd(room) == IF P0 + c.L = P0 + room THEN End ELSE IF room - c.L < 4 THEN AnyEnd ELSE End
NameEv == IF c.NL = 0 \/ c.NO = 0 THEN Ev("name", 0, 0) ELSE IF c.NO + 2 * c.NL > c.L THEN Ev("nameerr", 0, 0) ELSE Ev("name", P0 + c.NO, 2 * c.NL)
AttrOpen == IF c.L < 24 \/ c.L > ROOM THEN Fail
            ELSE Go("next", P0 + c.L, <<Ev("attr", P0, c.L), NameEv,
                       IF c.VO > c.L \/ c.VL > c.L - c.VO THEN Ev("valueerr", 0, 0) ELSE Ev("value", P0 + c.VO, c.VL)>>)
NrOpen == IF c.L < 64 \/ c.L > 2 * ROOM THEN Fail
          ELSE Go("next", P0 + c.L, <<Ev("attr", P0, c.L), NameEv,
                     IF c.RO > c.L \/ (c.L - c.RO) % 3 # 0 THEN Ev("runserr", 0, 0) ELSE Ev("runs", P0 + c.RO, (c.L - c.RO) \div 3)>>)
\* attribute list: a proper first entry of 32 bytes, then the one under test, then zeros
ListOpen == Go("list", 32, <<Ev("entry", 0, 32)>>)
ListNext == IF pos > 32 THEN (IF pos = 32 + c.REST THEN End ELSE Fail)
            ELSE IF c.REST = 0 THEN End
            ELSE IF c.REST < 26 \/ c.EL < 26 + 2 * c.NL \/ c.EL > c.REST THEN Fail
            ELSE Go("list", 32 + c.EL, <<Ev("entry", 32, c.EL), Ev("key", 32 + 26, 2 * c.NL)>>)
\* index nodes: the entries begin at H + EO and end at H + US, where the node header begins at H
Node(h, size) ==
  IF size < h + 16 \/ c.EO < 16 \/ c.EO > c.US \/ h + c.US > size THEN Fail
  ELSE IF part = "root" /\ h + c.EO = size THEN AnyEnd
  ELSE IF c.US = c.EO THEN End
  ELSE IF c.US - c.EO < 16 THEN Fail
  ELSE Go("done", pos, <<Ev("entry", h + c.EO, 16), Ev("end", 0, 0)>>)
RootOpen == Node(16, c.V)
NodeOpen == IF c.AL > REC - 24 \/ c.US > c.AL THEN Fail ELSE Node(24, 24 + c.AL)
\* an entry at the beginning of a node's W bytes, the last entry behind it if there is room, or zeros
EntryMin == IF c.FL % 2 = 1 THEN 24 ELSE 16
IsLast == c.FL >= 2
EntryOpen == IF c.W < 16 \/ c.EL < EntryMin \/ c.EL > c.W THEN Fail
             ELSE Go("entry", c.EL, <<Ev("entry", 0, c.EL),
                        IF IsLast \/ c.KL = 0 THEN Ev("key", 0, 0) ELSE IF 16 + c.KL > c.EL THEN Ev("keyerr", 0, 0) ELSE Ev("key", 16, c.KL),
                        IF c.FL % 2 = 1 THEN Ev("sub", c.EL - 8, 8) ELSE Ev("sub", 0, 0)>>)
EntryNext == IF IsLast \/ pos = c.W THEN End ELSE IF c.W - pos < 16 THEN Fail ELSE Go("done", pos, <<Ev("entry", pos, 16), Ev("key", 0, 0), Ev("sub", 0, 0), Ev("end", 0, 0)>>)
\* a value of size D on K clusters of 512 bytes: bytes up to the smaller of both, then the end, or an error if clusters are missing
Min(a, b) == IF a < b THEN a ELSE b
ValueOpen == LET have == Min(c.D, 512 * c.K) IN
             Go("done", pos, <<Ev("bytes", have, Min(c.I, have)), Ev(IF c.D > have THEN "any" ELSE "end", 0, 0)>>)

Open == /\ pc = "open"
        /\ CASE part = "record" -> RecOpen [] part = "attr" -> AttrOpen [] part = "nr" -> NrOpen [] part = "list" -> ListOpen
             [] part = "root" -> RootOpen [] part = "node" -> NodeOpen [] part = "entry" -> EntryOpen [] part = "value" -> ValueOpen
Step == \/ pc = "attrs" /\ RecAttrs
        \/ pc = "next" /\ (IF part = "attr" THEN AttrEnd(ROOM) ELSE AttrEnd(2 * ROOM))
        \/ pc = "list" /\ ListNext
        \/ pc = "entry" /\ EntryNext
Next == Pick \/ Open \/ Step
Spec == Init /\ [][Next]_vars

(* ---- contract -------------------------------------------------------------------------------------- *)
\* The container every kind of event must lie in.
Limit == CASE part = "record" -> Min(c.U, REC)
           [] part = "attr" -> P0 + Min(c.L, ROOM)
           [] part = "nr" -> P0 + Min(c.L, 2 * ROOM)
           [] part = "list" -> 32 + c.REST
           [] part = "root" -> Min(c.V, 16 + c.US)
           [] part = "node" -> Min(REC, 24 + c.US)
           [] part = "entry" -> c.W
           [] part = "value" -> c.D
Inside == pc \notin {"pick", "open"} =>
  \A i \in 1..Len(out) : LET e == out[i] IN
     /\ e.k \in {"attr", "name", "value", "entry", "key", "sub"} => e.o + e.n <= Limit \/ e.n = 0
     /\ e.k = "runs" => e.o + 3 * e.n <= Limit
     /\ e.k = "bytes" => e.o <= Limit /\ e.n <= e.o
\* Parts lie in the attribute or entry delivered before them.
Nested == \A i \in 2..Len(out) : out[i].k \in {"name", "value", "key", "sub"} /\ out[i].n > 0 =>
            \E j \in 1..(i - 1) : /\ out[j].k \in {"attr", "entry"}
                                  /\ out[j].o <= out[i].o /\ out[i].o + out[i].n <= out[j].o + out[j].n
\* An error or the end is the last event, and there is one.
Final == \A i \in 1..Len(out) : out[i].k \in {"end", "error", "any"} <=> i = Len(out) /\ pc = "done"
\* Nothing that fits is refused.
Fits == pc = "done" /\ out[Len(out)].k = "error" =>
  CASE part = "record" -> \/ c.A > REC \/ c.U > c.A \/ c.F > c.U
                           \/ (c.U > c.F /\ c.U < c.F + 32)
                           \/ (~c.T /\ c.U - (c.F + 32) >= 4)  \* another attribute begins and does not fit
    [] part = "attr" -> c.L \notin 24..ROOM
    [] part = "nr" -> c.L \notin 64..(2 * ROOM)
    [] part = "list" -> ~(c.EL = c.REST /\ c.EL >= 26 + 2 * c.NL)
    [] part = "root" -> ~(c.EO \in 16..c.US /\ 16 + c.US <= c.V /\ (c.US - c.EO >= 16 \/ c.US = c.EO))
    [] part = "node" -> ~(c.EO \in 16..c.US /\ c.US <= c.AL /\ c.AL <= REC - 24 /\ (c.US - c.EO >= 16 \/ c.US = c.EO))
    [] part = "entry" -> ~(c.EL \in EntryMin..c.W /\ (IsLast \/ c.W - c.EL >= 16 \/ c.W = c.EL))
    [] OTHER -> FALSE
Emit == pc = "done" => PrintT(ToJson([part |-> part, c |-> c, out |-> out]))
=============================================================================

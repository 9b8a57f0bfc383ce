------------------------------ MODULE Layout ------------------------------
(***************************************************************************)
(* Byte layout of the typed structures (C17).                              *)
(*                                                                         *)
(* A structure is a sequence of bytes whose form is given by a table:      *)
(* fixed fields at absolute offsets, groups of fields that are present     *)
(* only if the structure is long enough, and at most one trailing string   *)
(* whose length is itself a field.                                         *)
(*                                                                         *)
(* Contract (table of offsets): every reported field is the little-endian  *)
(* number / the bytes stored at its offset; flags are restricted to the    *)
(* defined bits; absent groups are reported as absent; identifiers print   *)
(* in the canonical form.                                                  *)
(* Machine (sequence of widths): a decoder that reads field after field    *)
(* from the front with a cursor, checks lengths as it goes, and stops at   *)
(* the first contradiction.                                                *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC, Json

CONSTANTS Types,     \* subset of DOMAIN Tab
          Pats,      \* families of byte patterns
          Vals       \* byte values standing out in a pattern

\* n: reported name (empty: not reported), w: width in bytes, p: width of the reported number (padded), m: mask
F(n, w) == [n |-> n, w |-> w, p |-> w, m |-> << >>]
P(n, w, p) == [n |-> n, w |-> w, p |-> p, m |-> << >>]
M(n, w, m) == [n |-> n, w |-> w, p |-> w, m |-> m]
Ref(n) == <<P(n \o "_number", 6, 8), F(n \o "_sequence", 2)>>

FileAttr == <<231, 127, 0, 16>>  \* 0x10007FE7
VolFlags == <<63, 192>>          \* 0xC03F
AttrFlags == <<1, 192>>          \* 0xC001
Low2 == <<3>>

\* groups: <<minimum length that makes the group present, fields>>; the first one is mandatory
\* str: << >> or <<offset of the length byte, unit of the length byte, offset of the string>>
\* lim: largest permitted length (0: none)
Tab == [
  std |-> [groups |-> << <<48, <<F("creation", 8), F("modification", 8), F("record_modification", 8), F("access", 8), M("attributes", 4, FileAttr)>> >>,
                         <<72, <<F("maximum_versions", 4), F("version", 4), F("class", 4), F("owner", 4), F("security", 4), F("quota", 8), F("usn", 8)>> >> >>,
           str |-> << >>, lim |-> 0],
  name |-> [groups |-> << <<68, Ref("parent") \o <<F("creation", 8), F("modification", 8), F("record_modification", 8), F("access", 8), F("allocated", 8),
                          F("size", 8), M("attributes", 4, FileAttr), F("", 4), F("", 1), F("namespace", 1)>> >> >>,
            str |-> <<64, 2, 66>>, lim |-> 0],
  volinfo |-> [groups |-> << <<12, <<F("", 8), F("major", 1), F("minor", 1), M("flags", 2, VolFlags)>> >> >>, str |-> << >>, lim |-> 0],
  volname |-> [groups |-> << <<0, << >> >> >>, str |-> << >>, lim |-> 256],
  objid |-> [groups |-> << <<16, <<F("guid:object", 16)>> >>, <<32, <<F("guid:birth_volume", 16)>> >>,
                           <<48, <<F("guid:birth_object", 16)>> >>, <<64, <<F("guid:domain", 16)>> >> >>, str |-> << >>, lim |-> 0],
  listent |-> [groups |-> << <<26, <<F("type", 4), F("length", 2), F("", 1), F("", 1), F("lowest", 8)>> \o Ref("record") \o <<F("instance", 2)>> >> >>,
               str |-> <<6, 2, 26>>, lim |-> 0],
  record |-> [groups |-> << <<48, <<F("", 16), F("sequence", 2), F("links", 2), F("", 2), M("flags", 2, <<3, 0>>), F("used", 4), F("allocated", 4), F("", 16)>> >> >>,
              str |-> << >>, lim |-> 0],
  attr |-> [groups |-> << <<16, <<F("type", 4), F("", 4), F("", 1), F("", 1), F("", 2), M("flags", 2, AttrFlags), F("instance", 2)>> >> >>,
            str |-> <<9, 2, 16>>, lim |-> 0],
  entry |-> [groups |-> << <<16, Ref("file") \o <<F("length", 2), F("key_length", 2), M("flags", 1, Low2), F("", 3)>> >> >>,
             str |-> <<10, 1, 16>>, lim |-> 0],
  root |-> [groups |-> << <<32, <<F("", 8), F("record_size", 4), F("", 4), F("", 4), F("used", 4), F("allocated", 4), M("large", 1, <<1>>), F("", 3)>> >> >>,
            str |-> << >>, lim |-> 0],
  node |-> [groups |-> << <<40, <<F("", 16), F("vcn", 8), F("", 4), F("used", 4), F("allocated", 4), M("large", 1, <<1>>), F("", 3)>> >> >>,
            str |-> << >>, lim |-> 0]
]

\* Bytes that the volume around the structure dictates: they are not free in a scenario (1-based positions).
\* The harness builds a consistent structure and overlays the free bytes.
Dictated == [std |-> {}, name |-> {}, volinfo |-> {}, volname |-> {}, objid |-> {},
             listent |-> {5, 6, 7, 8}, record |-> (1..16) \cup {21, 22} \cup (25..32),
             attr |-> (1..8) \cup {10, 11, 12}, entry |-> 1..16, root |-> (1..8) \cup (17..28), node |-> (1..36)]

VARIABLES ty, b, phase, g, f, cur, out, ok
vars == <<ty, b, phase, g, f, cur, out, ok>>

(* ---- scenarios ------------------------------------------------------------------------ *)
Lens == [std |-> {0, 1, 35, 36, 47, 48, 49, 71, 72, 73, 96}, name |-> {0, 66, 67, 68, 69}, volinfo |-> {0, 11, 12, 13, 16},
         volname |-> {0, 1, 2, 3, 22, 64, 255, 256, 257, 258}, objid |-> {0, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80},
         listent |-> {26}, record |-> {48}, attr |-> {16}, entry |-> {16}, root |-> {32}, node |-> {40}]
Walk(n, s) == [i \in 1..n |-> (i * 37 + s) % 256]
One(n, j, v, r) == [i \in 1..n |-> IF i = j THEN v ELSE r]
Names == {0, 1, 2, 12, 255}
NsBytes == {0, 1, 2, 3, 4, 255}
TypeCodes == {<<16, 0, 0, 0>>, <<48, 0, 0, 0>>, <<64, 0, 0, 0>>, <<80, 0, 0, 0>>, <<96, 0, 0, 0>>, <<112, 0, 0, 0>>, <<128, 0, 0, 0>>, <<144, 0, 0, 0>>,
              <<160, 0, 0, 0>>, <<176, 0, 0, 0>>, <<192, 0, 0, 0>>, <<208, 0, 0, 0>>, <<224, 0, 0, 0>>, <<240, 0, 0, 0>>, <<0, 1, 0, 0>>, <<32, 0, 0, 0>>}
IsType(x) == x \in TypeCodes \/ x = <<255, 255, 255, 255>>
Put(s, at, x) == [i \in 1..Len(s) |-> IF i > at /\ i <= at + Len(x) THEN x[i - at] ELSE s[i]]
HasStr(t) == Tab[t].str # << >>
FixedLen(t) == IF HasStr(t) THEN Tab[t].str[3] ELSE 0

Init == /\ ty \in Types /\ b = << >> /\ phase = "pick" /\ g = 1 /\ f = 1 /\ cur = 0 /\ out = << >> /\ ok = TRUE
Use(s) == /\ b' = s /\ phase' = "decode" /\ UNCHANGED <<ty, g, f, cur, out, ok>>
PickPlain == /\ phase = "pick" /\ "walk" \in Pats /\ ty # "entry"
             /\ \E n \in Lens[ty] : \E s \in {11, 100, 255} :
                   LET w == Walk(n, s) IN
                   Use(IF ty = "name" /\ n >= 66 THEN Put(w, 64, <<IF n >= 68 THEN 1 ELSE 0, s % 4>>)
                       ELSE IF HasStr(ty) /\ n > Tab[ty].str[1] THEN Put(w, Tab[ty].str[1], <<0>>) ELSE w)
PickOne == /\ phase = "pick" /\ "one" \in Pats
           /\ \E n \in {Tab[ty].groups[Len(Tab[ty].groups)][1]} : \E j \in 1..n : \E v \in Vals : \E r \in {0, 255} :
                 /\ v # r
                 /\ LET w == One(n, j, v, r)
                        z == IF ty = "name" /\ r = 255 /\ j \notin {65, 66} THEN Put(w, 64, <<1, 3>>)
                             ELSE IF HasStr(ty) /\ r = 255 /\ j # Tab[ty].str[1] + 1 THEN Put(w, Tab[ty].str[1], <<0>>)
                             ELSE w
                    IN j \notin Dictated[ty] /\ Use(z)
\* strings of every length, structures just long enough, too short, or longer
PickName == /\ phase = "pick" /\ "name" \in Pats /\ HasStr(ty) /\ ty # "entry"
            /\ \E k \in Names : \E d \in {-1, 0, 1, 6} : \E s \in {5, 201} :
                  LET u == Tab[ty].str[2]
                      n == Tab[ty].str[3] + u * k + d
                      w == Walk(n, s)
                  IN /\ (ty = "attr" => d = 0)
                     /\ IF ty = "name" THEN \E x \in NsBytes : Use(Put(w, 64, <<k, x>>))
                        ELSE Use(Put(w, Tab[ty].str[1], <<k>>))
PickType == /\ phase = "pick" /\ "type" \in Pats /\ ty = "listent"
            /\ \E c \in TypeCodes \cup {<<17, 0, 0, 0>>, <<128, 1, 0, 0>>, <<128, 0, 0, 128>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>} :
                  Use(Put(Put(Walk(26, 77), 6, <<0>>), 0, c))

\* index entries: header, key, padding, and the reference to the subnode at the very end
Al8(n) == ((n + 7) \div 8) * 8
EntryHeads == {One(8, j, v, r) : j \in 1..8, v \in Vals, r \in {0, 255}} \cup {<<o, 0, l, 0, 9, 8, 7, 6>> : o \in {0, 1, 15, 16, 17, 24, 31}, l \in {0, 1, 7, 8, 9}}
                \cup {<<o, 1, l, 0, 0, 0, 0, 0>> : o \in {0, 16}, l \in {0, 8}} \cup {<<o, 0, l, 1, 0, 0, 0, 0>> : o \in {0, 16}, l \in {0, 8}}
Entry(h, k, fl, s) == LET n == 16 + Al8(k) + (IF fl % 2 = 1 THEN 8 ELSE 0)
                          w == Walk(n, s)
                      IN Put(w, 0, h \o <<n % 256, n \div 256, k % 256, k \div 256, fl>>)
PickEntry == /\ phase = "pick" /\ "entry" \in Pats /\ ty = "entry"
             /\ \E h \in EntryHeads : \E k \in {0, 1, 7, 8, 9, 300} : \E fl \in {0, 1, 2, 3, 4, 252, 253, 254, 255} :
                   /\ (k = 300 \/ fl > 3) => h[1] = 16
                   /\ Use(Entry(h, k, fl, 60 + 3 * k))

(* ---- machine: a cursor over the bytes ------------------------------------------------- *)
Groups == Tab[ty].groups
Stop(o) == /\ phase' = "done" /\ ok' = o /\ UNCHANGED <<ty, b, g, f, cur, out>>
\* text of an identifier
Dig(x) == SubSeq("0123456789ABCDEF", x + 1, x + 1)
Hex(x) == Dig(x \div 16) \o Dig(x % 16)
Text(x) == Hex(x[4]) \o Hex(x[3]) \o Hex(x[2]) \o Hex(x[1]) \o "-" \o Hex(x[6]) \o Hex(x[5]) \o "-" \o Hex(x[8]) \o Hex(x[7]) \o "-"
           \o Hex(x[9]) \o Hex(x[10]) \o "-" \o Hex(x[11]) \o Hex(x[12]) \o Hex(x[13]) \o Hex(x[14]) \o Hex(x[15]) \o Hex(x[16])
RECURSIVE AndByte(_, _)
AndByte(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * AndByte(x \div 2, y \div 2)
Masked(x, m) == IF m = << >> THEN x ELSE [i \in 1..Len(x) |-> AndByte(x[i], m[i])]
Num(x, fd) == Ext(Masked(x, fd.m), fd.p)

Decode == /\ phase = "decode"
          /\ IF g = 1 /\ f = 1 /\ cur = 0 /\ (Len(b) < Groups[1][1] \/ (Tab[ty].lim > 0 /\ Len(b) > Tab[ty].lim)) THEN Stop(FALSE)
             ELSE IF g > Len(Groups) \/ (g > 1 /\ f = 1 /\ Len(b) < Groups[g][1]) THEN
                  /\ phase' = "tail" /\ UNCHANGED <<ty, b, g, f, cur, out, ok>>
             ELSE IF f > Len(Groups[g][2]) THEN g' = g + 1 /\ f' = 1 /\ UNCHANGED <<ty, b, phase, cur, out, ok>>
             ELSE LET fd == Groups[g][2][f]
                      x == SubSeq(b, cur + 1, cur + fd.w)
                  IN IF ty = "name" /\ fd.n = "namespace" /\ x[1] > 3 THEN Stop(FALSE)
                     ELSE /\ cur' = cur + fd.w /\ f' = f + 1 /\ out' = IF fd.n = "" THEN out ELSE Append(out, <<fd.n, Num(x, fd)>>)
                          /\ UNCHANGED <<ty, b, phase, g, ok>>
StrLen == Tab[ty].str[2] * (IF ty = "entry" THEN b[11] + 256 * b[12] ELSE b[Tab[ty].str[1] + 1])
TailStep == /\ phase = "tail"
            /\ IF ty = "volname" THEN /\ out' = Append(out, <<"name", b>>) /\ phase' = "done" /\ UNCHANGED <<ty, b, g, f, cur, ok>>
               ELSE IF ~HasStr(ty) THEN phase' = "done" /\ UNCHANGED <<ty, b, g, f, cur, out, ok>>
               ELSE IF cur + StrLen > Len(b) THEN Stop(FALSE)
               ELSE /\ out' = Append(out, <<"name", SubSeq(b, cur + 1, cur + StrLen)>>) /\ phase' = "done"
                    /\ UNCHANGED <<ty, b, g, f, cur, ok>>
Next == PickEntry \/ PickPlain \/ PickOne \/ PickName \/ PickType \/ Decode \/ TailStep
Spec == Init /\ [][Next]_vars

(* ---- contract: absolute offsets (as in the format's documentation) -------------------- *)
Offsets == [
  std |-> << <<"creation", 0, 8>>, <<"modification", 8, 8>>, <<"record_modification", 16, 8>>, <<"access", 24, 8>>, <<"attributes", 32, 4>>,
             <<"maximum_versions", 36, 4>>, <<"version", 40, 4>>, <<"class", 44, 4>>, <<"owner", 48, 4>>, <<"security", 52, 4>>, <<"quota", 56, 8>>, <<"usn", 64, 8>> >>,
  name |-> << <<"parent_number", 0, 6>>, <<"parent_sequence", 6, 2>>, <<"creation", 8, 8>>, <<"modification", 16, 8>>, <<"record_modification", 24, 8>>, <<"access", 32, 8>>,
              <<"allocated", 40, 8>>, <<"size", 48, 8>>, <<"attributes", 56, 4>>, <<"namespace", 65, 1>> >>,
  volinfo |-> << <<"major", 8, 1>>, <<"minor", 9, 1>>, <<"flags", 10, 2>> >>,
  volname |-> << >>,
  objid |-> << <<"guid:object", 0, 16>>, <<"guid:birth_volume", 16, 16>>, <<"guid:birth_object", 32, 16>>, <<"guid:domain", 48, 16>> >>,
  listent |-> << <<"type", 0, 4>>, <<"length", 4, 2>>, <<"lowest", 8, 8>>, <<"record_number", 16, 6>>, <<"record_sequence", 22, 2>>, <<"instance", 24, 2>> >>,
  record |-> << <<"sequence", 16, 2>>, <<"links", 18, 2>>, <<"flags", 22, 2>>, <<"used", 24, 4>>, <<"allocated", 28, 4>> >>,
  attr |-> << <<"type", 0, 4>>, <<"flags", 12, 2>>, <<"instance", 14, 2>> >>,
  entry |-> << <<"file_number", 0, 6>>, <<"file_sequence", 6, 2>>, <<"length", 8, 2>>, <<"key_length", 10, 2>>, <<"flags", 12, 1>> >>,
  root |-> << <<"record_size", 8, 4>>, <<"used", 20, 4>>, <<"allocated", 24, 4>>, <<"large", 28, 1>> >>,
  node |-> << <<"vcn", 16, 8>>, <<"used", 28, 4>>, <<"allocated", 32, 4>>, <<"large", 36, 1>> >>
]
MaskOf(n) == CASE n = "attributes" -> FileAttr
               [] n = "large" -> <<1>>
               [] n = "flags" -> (CASE ty = "volinfo" -> VolFlags [] ty = "record" -> <<3, 0>> [] ty = "attr" -> AttrFlags [] OTHER -> Low2)
               [] OTHER -> << >>
WidthOf(n, w) == IF w = 6 THEN 8 ELSE w
\* A field's group is present iff the structure is at least as long as the end of the group.
Groups2 == [std |-> <<48, 72>>, objid |-> <<16, 32, 48, 64>>]
Present(x) == IF ty \in {"std"} THEN (IF x[2] >= 36 THEN Len(b) >= 72 ELSE TRUE)
              ELSE IF ty = "objid" THEN Len(b) >= x[2] + 16 ELSE TRUE
Stored(x) == Ext(Masked(SubSeq(b, x[2] + 1, x[2] + x[3]), MaskOf(x[1])), WidthOf(x[1], x[3]))
Wanted == LET P1 == SelectSeq(Offsets[ty], Present) IN [i \in 1..Len(P1) |-> <<P1[i][1], Stored(P1[i])>>]
Accept == /\ Len(b) >= Groups[1][1]
          /\ ty = "volname" => Len(b) <= 256
          /\ ty = "name" => b[66] <= 3 /\ 66 + 2 * b[65] <= Len(b)
          /\ ty = "listent" => 26 + 2 * b[7] <= Len(b)
          /\ ty = "attr" => 16 + 2 * b[10] <= Len(b)
          /\ ty = "entry" => 16 + b[11] + 256 * b[12] <= Len(b)
WithName == CASE ty = "volname" -> Append(Wanted, <<"name", b>>)
              [] HasStr(ty) -> Append(Wanted, <<"name", SubSeq(b, FixedLen(ty) + 1, FixedLen(ty) + StrLen)>>)
              [] OTHER -> Wanted
Contract == phase = "done" => /\ ok <=> Accept
                              /\ ok => out = WithName
\* Nothing is ever taken from beyond the structure, and fields are disjoint and in order.
Inside == cur <= Len(b)
Disjoint == \A i, j \in 1..Len(Offsets[ty]) : i < j => Offsets[ty][i][2] + Offsets[ty][i][3] <= Offsets[ty][j][2]

\* The parts of an index entry that only some entries have: k = 0 absent, 1 present, 2 an error.
None == [k |-> 0, v |-> << >>]
Some(x) == [k |-> 1, v |-> x]
DOff == b[1] + 256 * b[2]
DLen == b[3] + 256 * b[4]
Parts == [key |-> IF StrLen = 0 \/ (b[13] \div 2) % 2 = 1 THEN None ELSE Some(SubSeq(b, 17, 16 + StrLen)),
          sub |-> IF b[13] % 2 = 0 THEN None ELSE Some(SubSeq(b, Len(b) - 7, Len(b))),
          data |-> IF DOff = 0 \/ DLen = 0 THEN None ELSE IF DOff + DLen > Len(b) THEN [k |-> 2, v |-> << >>] ELSE Some(SubSeq(b, DOff + 1, DOff + DLen))]
Emit == phase = "done" =>
  PrintT(ToJson([ty |-> ty, b |-> b, ok |-> ok, out |-> IF ok THEN out ELSE << >>,
                 text |-> IF ty = "objid" /\ ok THEN [i \in 1..Len(out) |-> Text(out[i][2])] ELSE << >>,
                 parts |-> IF ty = "entry" THEN Parts ELSE [key |-> None, sub |-> None, data |-> None],
                 known |-> IF ty = "listent" /\ ok THEN IsType(SubSeq(b, 1, 4)) ELSE TRUE]))
=============================================================================

------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A value of an NTFS attribute as a seekable byte stream (C01, C02, C03,  *)
(* C15, C16, C18 build on it).                                             *)
(*                                                                         *)
(* Two layers live side by side:                                           *)
(*   - the contract: a stream is a function from positions to content and  *)
(*     one number, the position (operators Abs...);                        *)
(*   - the cursor as implemented: current run, offset inside it, the run   *)
(*     iterator behind it and the position (variables, operators Imp...).  *)
(* TLC checks that every operation of the cursor returns exactly what the  *)
(* contract says (Agree) in every reachable cursor state of every layout,  *)
(* and prints every state with the outcome of all its operations; the      *)
(* harness walks that graph against the real code.                         *)
(*                                                                         *)
(* Lengths are in units; a cluster has CU units.  Positions from HiLo up   *)
(* to MaxP stand for the last positions of the 64-bit range, those from    *)
(* FarLo for some far behind the value that an offset can reach.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRuns, MaxLen, CU, Kinds, Sizes, Inits, Reads, Back, Fwd,
          BadMax  \* values of up to this many runs also with a damaged run list

MaxP == 1000
HiLo == 990
FarLo == 970

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumTo(_, _)
SumTo(runs, n) == IF n = 0 THEN 0 ELSE SumTo(runs, n - 1) + runs[n].len

(* ---- configurations -------------------------------------------------- *)
RunSeqs == UNION { [1..n -> [len : 1..MaxLen, sp : BOOLEAN]] : n \in 0..MaxRuns }

RECURSIVE Compositions(_)
Compositions(n) == IF n = 0 THEN { << >> }
                   ELSE UNION { { <<k>> \o c : c \in Compositions(n - k) } : k \in 1..n }

RECURSIVE SumOf(_)
SumOf(q) == IF q = << >> THEN 0 ELSE Head(q) + SumOf(Tail(q))

AllocOf(runs) == CU * SumTo(runs, Len(runs))

SizeSet(a) == { s \in (IF "all" \in Sizes THEN 0..a ELSE
                        (IF "zero" \in Sizes THEN {0} ELSE {}) \cup
                        (IF "one" \in Sizes THEN {1} ELSE {}) \cup
                        (IF "mid" \in Sizes THEN {(a \div 2) + 1} ELSE {}) \cup
                        (IF "short" \in Sizes THEN {a - 1} ELSE {}) \cup {a}) : s >= 0 /\ s <= a }
InitSet(s) == { i \in (IF "all" \in Inits THEN 0..s ELSE
                        (IF "zero" \in Inits THEN {0} ELSE {}) \cup
                        (IF "mid" \in Inits THEN {s \div 2} ELSE {}) \cup
                        (IF "short" \in Inits THEN {s - 1} ELSE {}) \cup {s}) : i >= 0 /\ i <= s }

NrConfigs == UNION { UNION { { [kind |-> "nr", runs |-> rs, cut |-> <<Len(rs)>>, size |-> s, init |-> i, bad |-> FALSE]
                               : i \in InitSet(s) } : s \in SizeSet(AllocOf(rs)) } : rs \in RunSeqs }
ListConfigs == UNION { UNION { UNION { { [kind |-> "list", runs |-> rs, cut |-> ct, size |-> s, init |-> i, bad |-> FALSE]
                               : i \in InitSet(s) } : s \in SizeSet(AllocOf(rs)) }
                               : ct \in Compositions(Len(rs)) } : rs \in RunSeqs \ {<< >>} }
ResConfigs == { [kind |-> "res", runs |-> <<>>, cut |-> <<>>, size |-> s, init |-> s, bad |-> FALSE] : s \in 0..(2 * CU * MaxLen) }

\* One data run, read on its own: as long as its allocation.
RunConfigs == { [kind |-> "run", runs |-> <<r>>, cut |-> <<1>>, size |-> CU * r.len, init |-> CU * r.len, bad |-> FALSE] : r \in [len : 1..2 * MaxLen, sp : BOOLEAN] }
\* The run list goes on behind the last run, but what follows there denotes no run.
BadConfigs == { [kind |-> kd, runs |-> rs, cut |-> ct, size |-> AllocOf(rs) + CU, init |-> AllocOf(rs) + i, bad |-> TRUE]
                : kd \in Kinds \cap {"nr", "list"}, rs \in { x \in RunSeqs : Len(x) \in 1..BadMax }, i \in {-1, CU}, ct \in UNION { Compositions(n) : n \in 1..BadMax } }
Flat(c) == c.kind \in {"res", "run"}

Configs == (IF "nr" \in Kinds THEN NrConfigs ELSE {})
      \cup (IF "list" \in Kinds THEN ListConfigs ELSE {})
      \cup (IF "res" \in Kinds THEN ResConfigs ELSE {})
      \cup (IF "run" \in Kinds THEN RunConfigs ELSE {})
      \cup { c \in BadConfigs : SumOf(c.cut) = Len(c.runs) /\ (c.kind = "nr" => Len(c.cut) = 1) }

(* ---- content and location of a position (contract) -------------------- *)
RLen(c, r) == CU * c.runs[r].len
RStart(c, r) == CU * SumTo(c.runs, r - 1)
Alloc(c) == IF c.kind = "res" THEN c.size ELSE AllocOf(c.runs)

RunAt(c, p) == CHOOSE r \in 1..Len(c.runs) : RStart(c, r) <= p /\ p < RStart(c, r) + RLen(c, r)

\* Locations are coded 100 * run + offset; resident values are run 1; -1: no location / zero byte.
Loc(c, p) == IF c.kind = "res" THEN 100 + p
             ELSE LET r == RunAt(c, p) IN IF c.runs[r].sp THEN -1 ELSE 100 * r + (p - RStart(c, r))
EndLoc(c, r) == IF c.runs[r].sp THEN -1 ELSE 100 * r + RLen(c, r)

Content(c, p) == IF p >= c.init THEN -1 ELSE Loc(c, p)

(* Where a cursor standing at p may claim to be.  Strictly inside a run there is one answer; at the border  *)
(* between two runs a cursor that got there by reading may still name the end of the run it has just read.  *)
DataPos(c, p) ==
  IF c.kind = "res" THEN IF p <= c.size THEN {100 + p} ELSE {-1}
  ELSE LET a == Alloc(c)
           nat == IF p < a THEN {Loc(c, p)} ELSE {}
           ends == { EndLoc(c, r) : r \in { x \in 1..Len(c.runs) : RStart(c, x) + RLen(c, x) = p } }
       IN nat \cup ends \cup (IF p >= c.size THEN {-1} ELSE {})
\* After a seek that moved the cursor inside the value there is one answer only.
DataPosSeek(c, p) == IF p < c.size /\ p < Alloc(c) THEN {Loc(c, p)} ELSE DataPos(c, p)

(* ---- contract of the operations ---------------------------------------- *)
\* Where the value's bytes end: damage in the run list leaves everything in front of it.
Limit(c) == IF c.bad THEN Alloc(c) ELSE c.size
AbsRead(c, p, k) == LET n == Max(0, Min(k, Limit(c) - p)) IN [i \in 1..n |-> Content(c, p + i - 1)]
\* Reading what lies behind the damage is an error that does not move; how far a seek looks ahead is left open.
AbsReadFails(c, p, k) == c.bad /\ k > 0 /\ p >= Limit(c) /\ p < c.size
AbsSeekOpen(c, p, t) == c.bad /\ t >= Limit(c) /\ t # p
Target(c, p, w, d) == IF w \in {"S", "e", "c"} THEN d ELSE IF w = "E" THEN c.size + d ELSE p + d
SeekOk(c, p, w, d) == Target(c, p, w, d) >= 0 /\ Target(c, p, w, d) <= MaxP

(* ---- the cursor as implemented ------------------------------------------ *)
\* cur: current run (0: none), off: offset in it, nx: next run of the iterator, pos: position
Cursor0(c) == IF Flat(c) \/ Len(c.runs) = 0 THEN [cur |-> 0, off |-> 0, nx |-> 1, pos |-> 0]
              ELSE [cur |-> 1, off |-> 0, nx |-> 2, pos |-> 0]

RECURSIVE ImpRead(_, _, _, _)
ImpRead(c, s, want, acc) ==
  IF want = 0 \/ s.pos >= c.size THEN [st |-> s, data |-> acc]
  ELSE IF s.cur # 0 /\ s.off < RLen(c, s.cur) THEN
    LET k == Min(want, Min(RLen(c, s.cur) - s.off, c.size - s.pos))
        piece == [i \in 1..k |-> IF c.runs[s.cur].sp \/ s.pos + i - 1 >= c.init THEN -1
                                 ELSE 100 * s.cur + s.off + i - 1]
    IN ImpRead(c, [s EXCEPT !.off = @ + k, !.pos = @ + k], want - k, acc \o piece)
  ELSE IF s.nx <= Len(c.runs) THEN ImpRead(c, [s EXCEPT !.cur = s.nx, !.off = 0, !.nx = @ + 1], want, acc)
  ELSE [st |-> s, data |-> acc]  \* (of a damaged run list: an error if nothing has been read)

RECURSIVE ImpForward(_, _, _)
ImpForward(c, s, left) ==
  IF left = 0 THEN s
  ELSE LET rem == IF s.cur = 0 THEN 0 ELSE RLen(c, s.cur) - s.off IN
    IF s.cur # 0 /\ left < rem THEN [s EXCEPT !.off = @ + left]
    ELSE IF s.nx <= Len(c.runs) THEN ImpForward(c, [s EXCEPT !.cur = s.nx, !.off = 0, !.nx = @ + 1], left - rem)
    ELSE [s EXCEPT !.cur = 0, !.off = 0]

\* A target at or behind the position is reached forwards from where the cursor stands, any other from the start.
ImpSeek(c, s, t) == IF t >= s.pos THEN [ImpForward(c, s, t - s.pos) EXCEPT !.pos = t]
                    ELSE [ImpForward(c, Cursor0(c), t) EXCEPT !.pos = t]

ResRead(c, s, k) == LET n == Max(0, Min(k, c.size - s.pos)) IN
                    [st |-> [s EXCEPT !.pos = @ + n], data |-> [i \in 1..n |-> Loc(c, s.pos + i - 1)]]

DoRead(c, s, k) == IF Flat(c) THEN ResRead(c, s, k) ELSE ImpRead(c, s, k, << >>)
DoSeek(c, s, t) == IF Flat(c) THEN [s EXCEPT !.pos = t] ELSE ImpSeek(c, s, t)

(* ---- the machine ----------------------------------------------------------- *)
VARIABLES cfg, st
vars == <<cfg, st>>

Positions(c) == 0..(Alloc(c) + 2) \cup FarLo .. FarLo + 1 \cup HiLo + 9 .. MaxP
Zone(p) == IF p < FarLo THEN 0 ELSE IF p < HiLo THEN 1 ELSE 2
InRange(c, p) == p \in Positions(c)

SeekArgs(c, p) ==
    { <<"S", t>> : t \in Positions(c) }
    \* a target by way of the end, or of the position
    \cup { <<w, t>> : w \in {"e", "c"}, t \in {0, c.size, FarLo, FarLo + 1} }
    \cup { <<"E", d>> : d \in {-(c.size + 1), -c.size, -1, 0, 1} }
    \cup { <<"C", d>> : d \in { -b : b \in Back } \cup Fwd \cup {-(p + 1), -p} }
\* Between the ends of the range there are only seeks to given targets.
SeekUsable(c, p, a) == /\ a[1] = "C" => IF p + a[2] < 0 THEN p < FarLo ELSE Zone(p) = Zone(p + a[2])
                       /\ (SeekOk(c, p, a[1], a[2]) => InRange(c, Target(c, p, a[1], a[2])))
SeekSet(c, p) == { a \in SeekArgs(c, p) : SeekUsable(c, p, a) }

Init == cfg \in Configs /\ st = Cursor0(cfg)
Next == /\ UNCHANGED cfg
        /\ \/ \E k \in Reads : st' = DoRead(cfg, st, k).st
           \/ \E a \in SeekSet(cfg, st.pos) : /\ SeekOk(cfg, st.pos, a[1], a[2])
                                              /\ ~AbsSeekOpen(cfg, st.pos, Target(cfg, st.pos, a[1], a[2]))
                                              /\ st' = DoSeek(cfg, st, Target(cfg, st.pos, a[1], a[2]))
Spec == Init /\ [][Next]_vars

(* ---- checked on every reachable state -------------------------------------- *)
Claim(c, s) == IF Flat(c) THEN (IF s.pos <= c.size /\ (c.kind = "res" \/ ~c.runs[1].sp) THEN 100 + s.pos ELSE -1)
               ELSE IF s.cur = 0 \/ c.runs[s.cur].sp THEN -1 ELSE 100 * s.cur + s.off

Agree ==
  /\ \A k \in Reads : LET r == DoRead(cfg, st, k) IN
        /\ r.data = AbsRead(cfg, st.pos, k)
        /\ r.st.pos = st.pos + Len(r.data)
        /\ AbsReadFails(cfg, st.pos, k) => r.data = << >>
        /\ Claim(cfg, r.st) \in DataPos(cfg, r.st.pos)
  /\ \A a \in SeekSet(cfg, st.pos) : (SeekOk(cfg, st.pos, a[1], a[2]) /\ ~AbsSeekOpen(cfg, st.pos, Target(cfg, st.pos, a[1], a[2]))) =>
        LET t == Target(cfg, st.pos, a[1], a[2])
            n == DoSeek(cfg, st, t)
        IN /\ n.pos = t
           /\ Claim(cfg, n) \in DataPos(cfg, t)
           /\ (t # st.pos => Claim(cfg, n) \in DataPosSeek(cfg, t))

Key(c, s) == <<s.pos, s.cur, s.off, s.nx>>

\* n: what comes of it; -1: it fails without moving, -2: it succeeds or fails without moving
Edges == { [o |-> <<"R", k>>, n |-> IF AbsReadFails(cfg, st.pos, k) THEN -1 ELSE Len(DoRead(cfg, st, k).data), to |-> Key(cfg, DoRead(cfg, st, k).st)] : k \in Reads }
   \cup { IF SeekOk(cfg, st.pos, a[1], a[2])
          THEN IF AbsSeekOpen(cfg, st.pos, Target(cfg, st.pos, a[1], a[2])) THEN [o |-> a, n |-> -2, to |-> Key(cfg, st)]
               ELSE [o |-> a, n |-> Target(cfg, st.pos, a[1], a[2]),
                to |-> Key(cfg, DoSeek(cfg, st, Target(cfg, st.pos, a[1], a[2])))]
          ELSE [o |-> a, n |-> -1, to |-> Key(cfg, st)] : a \in SeekSet(cfg, st.pos) }

Emit == PrintT(ToJson([cfg |-> cfg, at |-> Key(cfg, st),
                       rest |-> AbsRead(cfg, st.pos, 100),
                       dp |-> DataPos(cfg, st.pos), dps |-> DataPosSeek(cfg, st.pos),
                       e |-> Edges]))
=============================================================================

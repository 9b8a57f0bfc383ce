------------------------------ MODULE RunList ------------------------------
(***************************************************************************)
(* Decoding of the run list of a non-resident attribute (C04).             *)
(*                                                                         *)
(* A configuration is a list of elements (what the writer meant: width and *)
(* bytes of the length and of the location delta), how the area ends, and  *)
(* the cluster size.  Meaning is defined over the elements (Denote); the   *)
(* decoder works on the bytes, one run per step, as the implementation     *)
(* does (variables off, prev).  TLC checks that both agree.                *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC, Json

CONSTANTS FirstLens, FirstDels, LenWidths, DelWidths, Ks, MaxElems, Tails

Rep(b, n) == [i \in 1..n |-> b]
\* Interesting lengths and deltas of every width.
LenVals(w) == IF w = 0 THEN {<< >>}
              ELSE { OfInt(0, w), OfInt(1, w), OfInt(3, w), Rep(255, w), Ext(<<0>>, w - 1) \o <<128>> }
DelVals(w) == IF w = 0 THEN {<< >>}
              ELSE { OfInt(0, w), OfInt(1, w), OfInt(16, w), Rep(255, w), <<240>> \o Rep(255, w - 1), <<239>> \o Rep(255, w - 1),
                     OfInt(0, w - 1) \o <<128>>, Rep(255, w - 1) \o <<127>> }
FirstElems == { [l |-> OfInt(l, w), d |-> OfInt(d, w)] : l \in FirstLens, d \in FirstDels, w \in {1, 2} }
              \cup { [l |-> OfInt(l, 1), d |-> << >>] : l \in FirstLens }

(* ---- bytes ----------------------------------------------------------------- *)
Encode1(e) == <<16 * Len(e.d) + Len(e.l)>> \o e.l \o e.d
RECURSIVE EncodeAll(_)
EncodeAll(es) == IF es = << >> THEN << >> ELSE Encode1(Head(es)) \o EncodeAll(Tail(es))
\* Ends of the area: a marker, a marker followed by something that looks like a run, nothing at all, or a cut through the last element.
Area(es, t) == LET b == EncodeAll(es) IN
               IF t = "mark" THEN b \o <<0>>
               ELSE IF t = "junk" THEN b \o <<0, 17, 1, 1, 0>>
               ELSE IF t = "end" THEN b
               ELSE SubSeq(b, 1, Len(b) - 1)

(* ---- one step of the decoder -------------------------------------------------- *)
Decode(b, o, p, k) ==
  IF o >= Len(b) THEN [r |-> "end"]
  ELSE LET h == b[o + 1]
           nl == h % 16
           nd == h \div 16
       IN IF h = 0 THEN [r |-> "end"]
          ELSE IF nl > 8 \/ nd > 8 \/ o + 1 + nl + nd > Len(b) THEN [r |-> "err"]
          ELSE LET l == SubSeq(b, o + 2, o + 1 + nl)
                   d == SubSeq(b, o + 2 + nl, o + 1 + nl + nd)
                   alloc == MulN(l, k, 12)
                   lcn == AddN(p, SignExt(d, 9), 9)
                   pos == MulN(Ext(lcn, 8), k, 12)
                   end == AddN(pos, alloc, 12)
               IN IF IsZero(l) \/ ~Fits(alloc, 8) THEN [r |-> "err"]
                  ELSE IF nd = 0 THEN [r |-> "run", a |-> Ext(alloc, 8), loc |-> << >>, o |-> o + 1 + nl, p |-> p]
                  ELSE IF lcn[9] # 0 \/ ~Fits(pos, 8) \/ ~Fits(end, 8) THEN [r |-> "err"]
                  ELSE [r |-> "run", a |-> Ext(alloc, 8), loc |-> Ext(pos, 8), o |-> o + 1 + nl + nd, p |-> Ext(lcn, 8)]

(* ---- what the elements mean ------------------------------------------------------ *)
RECURSIVE SumDel(_, _)
SumDel(es, n) == IF n = 0 THEN Rep(0, 12) ELSE AddN(SumDel(es, n - 1), SignExt(es[n].d, 12), 12)
ElemOk(es, n, k) ==
  LET e == es[n] IN
  /\ Len(e.l) \in 1..8 /\ Len(e.d) <= 8 /\ ~IsZero(e.l)
  /\ Fits(MulN(e.l, k, 14), 8)
  /\ Len(e.d) > 0 => LET s == SumDel(es, n) IN
        ~Negative(s) /\ Fits(s, 8) /\ Fits(AddN(MulN(s, k, 14), MulN(e.l, k, 14), 14), 8)
Denote1(es, n, k) == [a |-> Ext(MulN(es[n].l, k, 14), 8),
                      loc |-> IF Len(es[n].d) = 0 THEN << >> ELSE Ext(MulN(SumDel(es, n), k, 14), 8)]
GoodPrefix(es, k) == CHOOSE n \in 0..Len(es) : /\ \A i \in 1..n : ElemOk(es, i, k)
                                               /\ n = Len(es) \/ ~ElemOk(es, n + 1, k)

(* ---- the machine ------------------------------------------------------------------- *)
VARIABLES es, tail, k, off, prev, out, stat
vars == <<es, tail, k, off, prev, out, stat>>

Init == /\ es = << >> /\ tail \in Tails /\ k \in Ks
        /\ off = 0 /\ prev = Rep(0, 8) /\ out = << >> /\ stat = "write"
\* The writer: elements from the small set may be followed by others, any element may be the last one.
Write == /\ stat = "write"
         /\ \/ /\ Len(es) + 1 < MaxElems
               /\ \E e \in FirstElems : es' = Append(es, e)
               /\ UNCHANGED stat
            \/ /\ \E lw \in LenWidths, dw \in DelWidths : \E l \in LenVals(lw), d \in DelVals(dw) :
                     /\ lw + dw > 0
                     /\ es' = Append(es, [l |-> l, d |-> d])
               /\ stat' = "go"
            \/ es' = es /\ stat' = "go" /\ tail # "cut"
         /\ UNCHANGED <<tail, k, off, prev, out>>
Step == /\ stat = "go"
        /\ LET r == Decode(Area(es, tail), off, prev, k) IN
           IF r.r = "run" THEN /\ off' = r.o /\ prev' = r.p /\ out' = Append(out, [a |-> r.a, loc |-> r.loc])
                               /\ UNCHANGED stat
           ELSE stat' = r.r /\ UNCHANGED <<off, prev, out>>
        /\ UNCHANGED <<es, tail, k>>
Spec == Init /\ [][Write \/ Step]_vars

(* Everything decoded so far is what the elements mean, and nothing else is ever decoded. *)
Agree == stat # "write" =>
  LET g == GoodPrefix(es, k)
      m == IF tail = "cut" THEN IF g = Len(es) THEN g - 1 ELSE g ELSE g
  IN /\ Len(out) <= m
     /\ \A i \in 1..Len(out) : out[i] = Denote1(es, i, k)
     /\ stat \notin {"go", "write"} => Len(out) = m /\ (stat = "end" <=> m = Len(es) \/ (tail = "cut" /\ m = Len(es) - 1 /\ Len(Encode1(es[Len(es)])) = 1))

Emit == stat \notin {"go", "write"} => PrintT(ToJson([b |-> Area(es, tail), k |-> k, out |-> out, stat |-> stat]))
=============================================================================

------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Unsigned numbers of any size as little-endian byte sequences (TLC's     *)
(* integers have 32 bits, NTFS fields up to 64).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, i, n, c) == IF i > n THEN << >>
                       ELSE LET s == At(a, i) + At(b, i) + c
                            IN <<s % 256>> \o AddR(a, b, i + 1, n, s \div 256)
\* (a + b) modulo 256^n
AddN(a, b, n) == AddR(a, b, 1, n, 0)

RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, i, n, c) == IF i > n THEN << >>
                       ELSE LET s == At(a, i) - At(b, i) - c
                            IN <<s % 256>> \o SubR(a, b, i + 1, n, IF s < 0 THEN 1 ELSE 0)
\* (a - b) modulo 256^n
SubN(a, b, n) == SubR(a, b, 1, n, 0)

RECURSIVE MulR(_, _, _, _, _)
MulR(a, m, i, n, c) == IF i > n THEN << >>
                       ELSE LET s == At(a, i) * m + c
                            IN <<s % 256>> \o MulR(a, m, i + 1, n, s \div 256)
\* (a * m) modulo 256^n for a small m (below 2^22)
MulN(a, m, n) == MulR(a, m, 1, n, 0)

RECURSIVE LessR(_, _, _)
LessR(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF At(a, i) # At(b, i) THEN At(a, i) < At(b, i) ELSE LessR(a, b, i - 1)
MaxLen2(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Less(a, b) == LessR(a, b, MaxLen2(a, b))
LessEq(a, b) == ~Less(b, a)
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Eq(a, b) == \A i \in 1..MaxLen2(a, b) : At(a, i) = At(b, i)

\* The first n bytes, zero-extended.
Ext(a, n) == [i \in 1..n |-> At(a, i)]
\* Two's complement extension to n bytes.
SignExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i]
                                 ELSE IF Len(a) > 0 /\ a[Len(a)] >= 128 THEN 255 ELSE 0]
Fits(a, n) == \A i \in (n + 1)..Len(a) : a[i] = 0
Negative(a) == Len(a) > 0 /\ a[Len(a)] >= 128

RECURSIVE OfInt(_, _)
OfInt(v, n) == IF n = 0 THEN << >> ELSE <<v % 256>> \o OfInt(v \div 256, n - 1)
\* Value of a number known to be below 2^31.
RECURSIVE ToIntR(_, _)
ToIntR(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + 256 * ToIntR(a, i + 1)
ToInt(a) == ToIntR(a, 1)
Small(a) == Fits(a, 3)

(* Division by a small number (below 2^22): quotient and remainder. *)
RECURSIVE DivR(_, _, _, _)
DivR(a, m, i, r) == IF i = 0 THEN <<r>>
                    ELSE LET x == r * 256 + a[i] IN DivR(a, m, i - 1, x % m) \o <<x \div m>>
\* DivN(a, m)[1] is the remainder, the rest the quotient (little-endian).
DivN(a, m) == DivR(a, m, Len(a), 0)
Quot(a, m) == Tail(DivN(a, m))
Rem(a, m) == DivN(a, m)[1]
=============================================================================

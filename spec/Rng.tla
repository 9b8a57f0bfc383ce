--------------------------------- MODULE Rng ---------------------------------
(* Pseudo-random choices that are a function of the state, for specifications whose behaviours are sampled and not *)
(* enumerated: a behaviour is a number, its choices follow from the number, and TLC explores many numbers.         *)
EXTENDS Integers, Sequences

\* The minimal standard generator, computed within 32 bits.
RndNext(x) == LET t == 16807 * (x % 127773) - 2836 * (x \div 127773) IN IF t > 0 THEN t ELSE t + 2147483647
RECURSIVE RndSkip(_, _)
RndSkip(x, k) == IF k = 0 THEN x ELSE RndSkip(RndNext(x), k - 1)
RndStart(seed, id) == RndSkip((((seed % 1000) * 1000003 + (id % 1000000) * 997 + 1) % 2147483646) + 1, 5)
\* The k-th number after x, cut down to 0..n-1
RndAt(x, k, n) == (RndSkip(x, k) \div 16) % n
RECURSIVE RndSeq(_, _, _)
RndSeq(x, k, n) == IF k = 0 THEN << >> ELSE <<(RndNext(x) \div 16) % n>> \o RndSeq(RndNext(x), k - 1, n)
RndPick(x, seq) == seq[1 + ((x \div 16) % Len(seq))]
=============================================================================

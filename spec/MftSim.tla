------------------------------- MODULE MftSim -------------------------------
(* Tables of many fragments: the table is a number (see Rng), every record number is asked for. *)
EXTENDS MCMft, Rng, IOUtils
CONSTANTS N, SimRuns

Max(a, b) == IF a > b THEN a ELSE b
Seed == atoi(IOEnv.VERIF_SEED)
Numbers(i) == RndSeq(RndStart(Seed, i), 60, 1000000)
RatioSeq == << <<2, 1>>, <<2, 2>>, <<2, 4>>, <<2, 8>>, <<4, 1>>, <<8, 1>>, <<8, 4>>, <<4, 2>>, <<2, 1>>, <<4, 1>>, <<8, 1>>, <<8, 8>> >>
\* No hole at the start, and no two holes in a row.
RECURSIVE RunsFrom(_, _, _, _, _)
RunsFrom(x, k, m, rt, prev) ==
  IF k > m THEN << >>
  ELSE LET hole == k > 1 /\ ~prev /\ x[k + 5] % 5 = 0
           len == IF x[k + 20] % 4 = 0 THEN 1 ELSE 1 + (x[k + 20] % 7)
           min == (rt[1] + rt[2] - 1) \div rt[2]
       IN <<[len |-> IF k = 1 THEN Max(len, min) ELSE len, hole |-> hole]>> \o RunsFrom(x, k + 1, m, rt, hole)
TableOf(i) == LET x == Numbers(i)
                  rt == RatioSeq[1 + (x[1] % Len(RatioSeq))]
                  rs == RunsFrom(x, 1, 2 + (x[2] % (SimRuns - 1)), rt, FALSE)
                  a == rt[2] * SumTo(rs, Len(rs))
                  s == Max(rt[1], a - (x[3] % (2 * rt[1])))
              IN [ratio |-> rt, runs |-> rs, size |-> s,
                  init |-> Max(rt[1], IF x[4] % 3 = 0 THEN s - (x[5] % (s + 1)) ELSE IF x[4] % 3 = 1 THEN s - (x[5] % (2 * rt[1])) ELSE s)]
SimInit == \E i \in 1..N : LET t == TableOf(i) IN
             /\ ratio = t.ratio /\ runs = t.runs /\ size = t.size /\ init = t.init
             /\ phase = "idle" /\ n = 0 /\ cur = 0 /\ off = 0 /\ left = 0 /\ got = << >>
SimNext == Ask \/ Walk \/ Read
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================

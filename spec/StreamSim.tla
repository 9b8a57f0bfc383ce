------------------------------ MODULE StreamSim ------------------------------
(***************************************************************************)
(* Long behaviours of the stream cursor of Stream.tla over values of many  *)
(* runs.  Stream.tla enumerates everything that is possible with a few     *)
(* small runs; here a behaviour is a number: the value (its runs, how they *)
(* are divided into attributes, its sizes) and every operation follow from *)
(* it.  TLC checks each step of the cursor against the contract and prints *)
(* the behaviour with the results; the harness performs it.                *)
(***************************************************************************)
EXTENDS Stream, Rng, IOUtils

CONSTANTS N, D, SimRuns

Seed == atoi(IOEnv.VERIF_SEED)

\* 100 numbers that decide the value
Numbers(i) == RndSeq(RndStart(Seed, i), 100, 1000000)
RunsOf(x) == LET n == 1 + (x[1] % SimRuns)
                 long == x[2] % 3
             IN [k \in 1..n |-> [len |-> CASE long = 0 -> 1 + (x[2 + k] % 3)
                                           [] long = 1 -> 1 + (x[2 + k] % 9)
                                           [] OTHER -> IF x[2 + k] % 5 = 0 THEN 10 + (x[22 + k] % 16) ELSE 1 + (x[2 + k] % 2),
                                 sp |-> x[42 + k] % 4 = 0]]
\* The runs of one attribute each: a border behind a run with the chance of one in (m + 1)
RECURSIVE CutOf(_, _, _, _, _)
CutOf(x, k, n, m, cur) == IF k > n THEN (IF cur = 0 THEN << >> ELSE <<cur>>)
                          ELSE IF k < n /\ x[80 + k] % (m + 1) = 0 THEN <<cur + 1>> \o CutOf(x, k + 1, n, m, 0)
                          ELSE CutOf(x, k + 1, n, m, cur + 1)
PickOf(x, lo, hi) == lo + (x % (hi - lo + 1))
ValueOf(i) ==
  LET x == Numbers(i)
      rs == RunsOf(x)
      list == IF "list" \in Kinds THEN (IF "nr" \in Kinds THEN x[70] % 2 = 0 ELSE TRUE) ELSE FALSE
      a == AllocOf(rs)
      lastRun == CU * rs[Len(rs)].len
      size == CASE x[71] % 4 = 0 -> a
                [] x[71] % 4 = 1 -> a - 1
                [] x[71] % 4 = 2 -> PickOf(x[72], a - lastRun + 1, a)
                [] OTHER -> PickOf(x[72], 0, a)
      init == CASE x[73] % 3 = 0 -> size
                [] x[73] % 3 = 1 -> PickOf(x[74], 0, size)
                [] OTHER -> PickOf(x[74], size \div 2, size)
  IN [kind |-> IF list THEN "list" ELSE "nr", runs |-> rs,
      cut |-> IF list THEN CutOf(x, 1, Len(rs), x[75] % 4, 0) ELSE <<Len(rs)>>, size |-> size, init |-> init, bad |-> FALSE]

VARIABLES id, rnd, hist
simvars == <<cfg, st, id, rnd, hist>>

\* A position worth going to: anywhere, or around the border of a run, of the size, of the initialised size.
Place(c, x, y) ==
  LET r == 1 + (x % Len(c.runs))
      around == (y % 3) - 1
      t == CASE y % 5 = 0 -> PickOf(x, 0, Alloc(c) + 1)
             [] y % 5 = 1 -> c.size + around
             [] y % 5 = 2 -> c.init + around
             [] OTHER -> RStart(c, r) + around
  IN Max(0, Min(t, Alloc(c) + 1))

PickOp(c, p, x) ==
  LET a == RndAt(x, 1, 100)
      b == RndAt(x, 2, 100000)
      d == RndAt(x, 3, 100000)
      t == Place(c, b, d)
      rest == Max(0, c.size - p)
  IN CASE rest = 0 /\ a < 36 -> <<"S", t>>
       [] rest = 0 /\ a < 48 /\ p < FarLo -> <<"C", t - p>>
       [] rest = 0 /\ a < 48 -> <<"c", t>>
       [] a < 12 -> <<"R", b % 4>>
       [] a < 30 -> <<"R", b % 12>>
       [] a < 38 -> <<"R", 1 + (b % (rest + 3))>>
       [] a < 42 -> <<"R", rest>>
       [] a < 50 -> <<"R", IF t >= p THEN t - p ELSE b % 7>>
       [] a < 62 -> <<"S", t>>
       [] a < 68 -> <<"E", t - c.size>>
       [] a < 86 /\ p < FarLo -> <<"C", t - p>>
       [] a < 90 /\ p < FarLo -> <<"C", (b % 9) - 4>>
       [] a < 92 /\ p < FarLo -> <<"C", -(p + 1)>>
       [] a < 93 -> <<"E", -(c.size + 1 + (b % 3))>>
       [] a < 94 -> <<"S", MaxP - (b % 2)>>
       [] a < 95 -> <<IF b % 4 < 2 THEN "e" ELSE "c", FarLo + (b % 2)>>
       [] a < 96 -> <<IF b % 2 = 0 THEN "e" ELSE "c", t>>
       [] p >= HiLo -> <<"C", (b % 5) - 2>>
       [] p >= FarLo -> <<"c", FarLo + (b % 5)>>
       [] OTHER -> <<"S", b % (p + 1)>>

Op == PickOp(cfg, st.pos, rnd)
Done == Len(hist) = D
\* (a relative seek from the high end that overflows fails like one below zero)
Fails(o) == o[1] # "R" /\ ~SeekOk(cfg, st.pos, o[1], o[2])
After(o) == IF o[1] = "R" THEN DoRead(cfg, st, o[2]).st
            ELSE IF Fails(o) THEN st
            ELSE DoSeek(cfg, st, Target(cfg, st.pos, o[1], o[2]))

SimInit == /\ id \in 1..N
           /\ cfg = ValueOf(id)
           /\ st = Cursor0(cfg)
           /\ rnd = RndStart(Seed + 1, id)
           /\ hist = << >>
SimNext == /\ ~Done
           /\ st' = After(Op)
           /\ hist' = Append(hist, [o |-> Op, to |-> st'.pos,
                                    n |-> IF Op[1] = "R" THEN st'.pos - st.pos ELSE IF Fails(Op) THEN -1 ELSE st'.pos])
           /\ rnd' = RndSkip(rnd, 4)
           /\ UNCHANGED <<cfg, id>>
SimSpec == SimInit /\ [][SimNext]_simvars

SimAgree ==
  /\ st.pos < FarLo => Claim(cfg, st) \in DataPos(cfg, st.pos)
  /\ ~Done => LET o == Op IN
       IF o[1] = "R" THEN LET r == DoRead(cfg, st, o[2]) IN /\ r.data = AbsRead(cfg, st.pos, o[2])
                                                            /\ r.st.pos = st.pos + Len(r.data)
       ELSE ~Fails(o) => LET t == Target(cfg, st.pos, o[1], o[2])
                             m == DoSeek(cfg, st, t)
                         IN m.pos = t /\ Claim(cfg, m) \in DataPos(cfg, t) /\ (t # st.pos => Claim(cfg, m) \in DataPosSeek(cfg, t))

SimEmit == Done => PrintT(ToJson([cfg |-> cfg, content |-> AbsRead(cfg, 0, cfg.size),
                                  dp |-> [p \in 1..(Alloc(cfg) + 3) |-> DataPos(cfg, p - 1)],
                                  dps |-> [p \in 1..(Alloc(cfg) + 3) |-> DataPosSeek(cfg, p - 1)], ops |-> hist]))
=============================================================================

------------------------------ MODULE ObjectsSim ------------------------------
(***************************************************************************)
(* Long histories of the objects of Objects.tla: many objects, opened and  *)
(* cloned over each other, dozens of operations, several faults.  A        *)
(* history is a number (see Rng): its operations follow from it.           *)
(***************************************************************************)
EXTENDS Objects, Rng, IOUtils, SequencesExt

CONSTANTS N

Seed == atoi(IOEnv.VERIF_SEED)
VARIABLES id, rnd
simvars == <<slot, own, h, faults, id, rnd>>

Used == { s \in Slots : slot[s] # None }
Choose(S, x) == SetToSeq(S)[1 + (x % Cardinality(S))]
\* How much a history opens, how often it clones, and what it prefers, differ from history to history.
Style(k) == RndAt(RndStart(Seed + 7, id), k, 1000)

\* A slot that is in use is opened anew: what was there is gone.
Reopen(s, k) == /\ slot' = [slot EXCEPT ![s] = [k |-> k, at |-> 0]]
                /\ own' = [own EXCEPT ![s] = << >>]
                /\ h' = Append(h, <<"open", s, k, "none", 0>>) /\ UNCHANGED faults
Copy(s, t) == /\ slot' = [slot EXCEPT ![t] = slot[s]]
              /\ own' = [own EXCEPT ![t] = own[s]]
              /\ h' = Append(h, <<"clone", s, t, "none", 0>>) /\ UNCHANGED faults
UseSome(s, op, a, f, outs, x) == LET o == Choose(outs, x) IN
              /\ slot' = [slot EXCEPT ![s].at = o[3]]
              /\ own' = [own EXCEPT ![s] = Append(@, <<op, a, f[1], o>>)]
              /\ Did(op, s, a, f)

Step(x) ==
  LET a == RndAt(x, 1, 100)
      b == RndAt(x, 2, 10000)
      d == RndAt(x, 3, 10000)
      e == RndAt(x, 4, 10000)
      opens == 4 + (Style(1) % 12)
      clones == 1 + (Style(2) % 10)
      faulty == 3 + (Style(3) % 4)
      near == { s \in Used : s % 2 = Style(4) % 2 }
      s == IF near # {} /\ b % 3 = 0 THEN Choose(near, b) ELSE Choose(Used, b)
      copyable == { t \in Used : slot[t].k \in {"val", "it"} }
      \* what one operation meets
      f == IF MaxFaults > faults /\ e % faulty = 0 THEN <<Choose(FaultKinds, d), (e \div 16) % (MaxIdx + 1)>> ELSE <<"none", 0>>
      k == slot[s].k
      at == slot[s].at
  IN IF Used = {} \/ a < opens THEN Reopen(Choose(Slots, b), Choose(Types, d))
     ELSE IF a < opens + clones /\ copyable # {} THEN Copy(Choose(copyable, b), Choose(Slots, d))
     ELSE CASE k = "val" /\ d % 10 < 5 -> LET n == Choose(Reads, e) IN UseSome(s, "read", n, f, ReadOut(ValLen, at, n, f[1]), e)
            [] k = "val" /\ d % 10 < 7 -> LET n == Choose(Reads, e) IN UseSome(s, "exact", n, f, ExactOut(ValLen, at, n, f[1]), e)
            [] k = "val" -> LET t == Choose(Targets \cup {-1}, e) IN UseSome(s, "seek", t, f, SeekOut(at, t, f[1]), e)
            [] k = "it" -> UseSome(s, "next", 0, f, NextOut(Items, at, f[1]), e)
            [] OTHER -> UseSome(s, "ask", 1 + (e % Questions), f, AskOut(at, f[1]), e)

SimInit == Init /\ id \in 1..N /\ rnd = RndStart(Seed, id)
SimNext == /\ Len(h) < Depth
           /\ Step(rnd)
           /\ rnd' = RndSkip(rnd, 5)
           /\ UNCHANGED id
SimSpec == SimInit /\ [][SimNext]_simvars
SimEmit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================

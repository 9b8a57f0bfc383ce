------------------------------ MODULE TornSim ------------------------------
(***************************************************************************)
(* Power loss over records of many sectors: the machine of Torn.tla, whose *)
(* choices follow from the number of the behaviour (Torn.tla enumerates    *)
(* all of them for records of up to eight sectors).                        *)
(***************************************************************************)
EXTENDS Torn, Rng, IOUtils

CONSTANTS N

Seed == atoi(IOEnv.VERIF_SEED)
VARIABLES id, rnd
simvars == <<ns, cls, cover, disk, writing, todo, id, rnd>>

Sizes == << 16, 16, 16, 32, 32, 64, 128 >>
Classes == << "x", "own", "next" >>
X(i, k, m) == RndAt(RndStart(Seed, i), k, m)
SimInit == /\ id \in 1..N
           /\ ns = Sizes[1 + X(id, 1, 7)]
           /\ cls = Classes[1 + X(id, 2, 3)]
           /\ cover = CASE X(id, 3, 12) = 0 -> ns - 1
                        [] X(id, 3, 12) = 1 -> ns + 1
                        [] X(id, 3, 12) = 2 -> X(id, 4, ns + 1) - 1
                        [] OTHER -> ns
           /\ disk = [i \in 1..ns |-> 0]
           /\ writing = 0 /\ todo = {}
           /\ rnd = RndStart(Seed + 7, id)
\* The sectors reach the disk front to back, back to front, or in any order.
Nth(S, k) == CHOOSE i \in S : Cardinality({j \in S : j < i}) = k
Pick == CASE id % 4 = 0 -> Nth(todo, 0)
          [] id % 4 = 1 -> Nth(todo, Cardinality(todo) - 1)
          [] OTHER -> Nth(todo, RndAt(rnd, 2, Cardinality(todo)))
Crash == todo = {} \/ (id % 8 > 3 /\ RndAt(rnd, 1, 2 * ns) = 0)
SimNext == /\ IF Crash THEN Begin
              ELSE /\ disk' = [disk EXCEPT ![Pick] = writing]
                   /\ todo' = todo \ {Pick}
                   /\ UNCHANGED <<ns, cls, cover, writing>>
           /\ rnd' = RndSkip(rnd, 3)
           /\ UNCHANGED id
SimSpec == SimInit /\ [][SimNext]_simvars
=============================================================================

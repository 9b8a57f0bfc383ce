------------------------------ MODULE IndexSim ------------------------------
(***************************************************************************)
(* Big index trees: the machine of Index.tla, whose choices follow from    *)
(* the number of the behaviour (Index.tla enumerates all small trees).     *)
(* Every behaviour builds a tree - deep chains, wide nodes, and what lies  *)
(* between -, iterates it, and searches for a few keys.                    *)
(***************************************************************************)
EXTENDS Index, Rng, IOUtils

CONSTANTS N, NodeKeys, Asks

Seed == atoi(IOEnv.VERIF_SEED)
VARIABLES id, rnd, asks
simvars == <<nodes, open, pend, n, phase, st, follow, out, read, ask, id, rnd, asks>>

\* What kind of tree: how many nodes at most, how deep, and the chances (of 100) of going down and of closing a node.
P(i, k, m) == RndAt(RndStart(Seed, i), k, m)
Wanted(i) == 2 + P(i, 1, MaxNodes - 1)
Deep(i) == 2 + P(i, 2, MaxDepth - 1)
Down(i) == CASE P(i, 3, 4) = 0 -> 80 [] P(i, 3, 4) = 1 -> 50 [] P(i, 3, 4) = 2 -> 25 [] OTHER -> 40
Shut(i) == CASE P(i, 4, 3) = 0 -> 15 [] P(i, 4, 3) = 1 -> 30 [] OTHER -> 55

A == RndAt(rnd, 1, 100)
B == RndAt(rnd, 2, 100)
Room == Len(nodes[Last(open)]) < NodeKeys
MayOpen == pend = 0 /\ Len(nodes) < Wanted(id) /\ Len(open) < Deep(id) /\ Room
\* The root is not closed before there is a tree worth it.
Early == Len(open) = 1 /\ Len(nodes) < Wanted(id) /\ n < MaxKeys /\ Room
Build == IF MayOpen /\ A < Down(id) THEN Open
         ELSE IF n = MaxKeys \/ ~Room THEN Close
         ELSE IF ~Early /\ B < Shut(id) THEN Close
         ELSE Key

SimInit == /\ id \in 1..N
           /\ rnd = RndStart(Seed + 3, id)
           /\ asks = 0
           /\ Init
\* One search after the other, with a search for something absent after each search for a key.
Ask == /\ phase \in {"iterated", "found"} /\ asks < Asks
       /\ ask' = IF asks % 2 = 0 THEN 1 + ((A * 100 + B) % (2 * n + 1)) ELSE (2 * ((A * 100 + B) % (n + 1))) + 1
       /\ asks' = asks + 1
       /\ phase' = "find" /\ st' = <<[node |-> 1, i |-> 1]>> /\ out' = << >> /\ read' = << >>
       /\ UNCHANGED <<nodes, open, pend, n, follow>>
SimNext == /\ \/ phase = "build" /\ Build /\ UNCHANGED asks
              \/ (StartIter \/ IterStep \/ FindStep) /\ UNCHANGED asks
              \/ Ask
           /\ rnd' = RndSkip(rnd, 3)
           /\ UNCHANGED id
SimSpec == SimInit /\ [][SimNext]_simvars
\* (phase "iterated" has the iteration's results only before the first search)
SimContract == InOrder /\ (asks = 0 => Whole) /\ Found
SimOneWay == phase = "found" => OneWay
=============================================================================

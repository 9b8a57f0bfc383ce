------------------------------ MODULE AttrsSim ------------------------------
(***************************************************************************)
(* Files of many attributes over many records: the machine of Attrs.tla,   *)
(* whose choices follow from the number of the behaviour.                  *)
(***************************************************************************)
EXTENDS MCAttrs, Rng, IOUtils

CONSTANTS N

Seed == atoi(IOEnv.VERIF_SEED)
VARIABLES id, rnd
simvars == <<attrs, list, inst, dir, phase, raw, li, out, id, rnd>>

KindsBig == << k(16, 0, TRUE, 0, 0, 0), k(48, 0, TRUE, 2, 5, 0), k(48, 0, TRUE, 1, 5, 0), k(48, 0, TRUE, 1, 6, 0), k(48, 0, TRUE, 0, 6, 0),
               k(64, 0, TRUE, 0, 0, 0), k(80, 0, FALSE, 0, 0, 0), k(128, 0, TRUE, 0, 0, 0), k(128, 0, FALSE, 0, 0, 0),
               k(128, 1, FALSE, 0, 0, 0), k(128, 3, FALSE, 0, 0, 0), k(128, 4, TRUE, 0, 0, 0), k(128, 5, FALSE, 0, 0, 0), k(128, 6, FALSE, 0, 0, 0),
               k(160, 7, FALSE, 0, 0, 0), k(176, 7, FALSE, 0, 0, 0), k(192, 0, FALSE, 0, 0, 0), k(208, 0, TRUE, 0, 0, 0), k(224, 0, FALSE, 0, 0, 0),
               k(256, 1, TRUE, 0, 0, 0), k(256, 3, FALSE, 0, 0, 0), k(256, 5, FALSE, 0, 0, 0) >>

R(i, m) == RndAt(rnd, i, m)
\* How many attributes, how many records, how far the extents of one attribute are spread (0: anywhere).
Count == 2 + RndAt(RndStart(Seed, id), 1, MaxAttrs - 1)
Recs == 1 + RndAt(RndStart(Seed, id), 2, NRecs)
Style == RndAt(RndStart(Seed, id), 3, 3)
LastK == IF attrs = << >> THEN 0 ELSE attrs[Len(attrs)].k
\* A file name may follow itself, any other kind leaves room for those behind it.
NextK == IF LastK \in 2..5 /\ R(1, 2) = 0 THEN 2 + R(2, 4) ELSE LastK + 1 + R(2, 3)
Fits == NextK <= Len(Kinds) /\ (attrs # << >> => MayFollow(LastK, NextK))
Extents == IF Kinds[NextK].res THEN 1 ELSE IF R(3, 3) = 0 THEN 1 ELSE 1 + R(4, MaxExt)
PlaceOf(e) == CASE Style = 0 -> R(5 + e, Recs)
                [] Style = 1 -> (R(5, Recs) + e - 1) % Recs
                [] OTHER -> IF R(5 + e, 4) = 0 THEN 0 ELSE R(5, Recs)
Added == Append(attrs, [k |-> NextK, place |-> [e \in 1..Extents |-> IF Kinds[NextK].t \in BaseOnly THEN 0 ELSE PlaceOf(e)]])
\* A record does not hold any number of attributes.
In(as, r) == Cardinality({<<a, e>> \in (1..Len(as)) \X (1..MaxExt) : e <= Len(as[a].place) /\ as[a].place[e] = r})
Full == \E r \in 0..(NRecs - 1) : In(Added, r) > 20
AddSim == /\ attrs' = Added
          /\ UNCHANGED <<list, inst, dir, phase, raw, li, out>>
StartSim == /\ list' = IF NeedsList \/ R(1, 3) = 0 THEN 1 + R(2, 2) ELSE 0
            /\ inst' = IF list' = 0 THEN 0 ELSE R(3, 2)
            /\ dir' = FALSE
            /\ phase' = "iter" /\ raw' = 1 /\ li' = 0 /\ out' = << >>
            /\ UNCHANGED attrs
SimInit == Init /\ id \in 1..N /\ rnd = RndStart(Seed + 5, id)
SimNext == /\ IF phase = "build" THEN (IF Len(attrs) = Count \/ (attrs # << >> /\ LastK >= Len(Kinds) - 1) \/ (Fits /\ Full) THEN StartSim
                                       ELSE IF Fits THEN AddSim ELSE UNCHANGED <<attrs, list, inst, dir, phase, raw, li, out>>)
              ELSE ListStep \/ RawStep
           /\ rnd' = RndSkip(rnd, 14)
           /\ UNCHANGED id
SimSpec == SimInit /\ [][SimNext]_simvars
=============================================================================

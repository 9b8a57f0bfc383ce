-------------------------------- MODULE Mft --------------------------------
(***************************************************************************)
(* Looking up file records by number (C06).                                *)
(*                                                                         *)
(* The table is a stream of units over runs (located or holes) that can    *)
(* lie anywhere on the disk; a record takes RU units, a cluster CU units.  *)
(* Record n is units n*RU .. n*RU+RU-1 of that stream, if the stream has   *)
(* them all.                                                               *)
(* Units behind the initialised size are zeros, whatever is stored there,  *)
(* and so is no record that has one.                                       *)
(*                                                                         *)
(* Contract: Resolve(n).  Machine: the lookup as implemented - take the    *)
(* offset, walk the runs to it, check that a whole record is left, read    *)
(* piece by piece over run borders.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ratios, MaxRuns, MaxLen, Cuts, Holes, InitCuts

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(rs, n) == IF n = 0 THEN 0 ELSE SumTo(rs, n - 1) + rs[n].len

VARIABLES ratio, runs, size, init, n, phase, cur, off, left, got
vars == <<ratio, runs, size, init, n, phase, cur, off, left, got>>

RU == ratio[1]
CU == ratio[2]
Alloc == CU * SumTo(runs, Len(runs))

(* ---- contract: locations are coded 1000 * run + offset ----------------------- *)
RunOf(p) == CHOOSE r \in 1..Len(runs) : CU * SumTo(runs, r - 1) <= p /\ p < CU * SumTo(runs, r)
LocOf(p) == IF runs[RunOf(p)].hole THEN -1 ELSE 1000 * RunOf(p) + p - CU * SumTo(runs, RunOf(p) - 1)
Whole(m) == m * RU + RU <= Min(size, init)
Resolve(m) == IF ~Whole(m) THEN << >>
              ELSE LET ls == [i \in 1..RU |-> LocOf(m * RU + i - 1)]
                   IN IF \E i \in 1..RU : ls[i] = -1 THEN << >> ELSE ls

(* ---- machine ------------------------------------------------------------------ *)
\* The first records stand for the ones needed to open the table; they are never in a hole.
Init == /\ ratio \in Ratios /\ phase = "runs" /\ runs = << >> /\ size = 0 /\ init = 0 /\ n = 0 /\ cur = 0 /\ off = 0 /\ left = 0 /\ got = << >>
AddRun == /\ phase = "runs" /\ Len(runs) < MaxRuns
          /\ \E l \in 1..MaxLen, h \in Holes : /\ (Len(runs) = 0 => ~h /\ l * CU >= RU)
                                               /\ (Len(runs) > 0 => runs[Len(runs)].hole = FALSE \/ ~h)
                                               /\ runs' = Append(runs, [len |-> l, hole |-> h])
          /\ UNCHANGED <<ratio, size, init, n, phase, cur, off, left, got>>
SetSize == /\ phase = "runs" /\ Len(runs) > 0
           /\ \E c \in Cuts : /\ Alloc - c >= RU
                              /\ size' = Alloc - c
                              /\ \E d \in InitCuts : Alloc - c - d >= RU /\ init' = Alloc - c - d
           /\ phase' = "idle"
           /\ UNCHANGED <<ratio, runs, n, cur, off, left, got>>
Ask == /\ phase = "idle"
       /\ \E m \in 0..((Alloc \div RU) + 2) : n' = m
       /\ phase' = "walk" /\ cur' = 1 /\ off' = n' * RU /\ left' = RU /\ got' = << >>
       /\ UNCHANGED <<ratio, runs, size, init>>
Walk == /\ phase = "walk"
        /\ IF n * RU + RU > size \/ cur > Len(runs) THEN phase' = "fail" /\ UNCHANGED <<cur, off>>
           ELSE IF off >= CU * runs[cur].len THEN cur' = cur + 1 /\ off' = off - CU * runs[cur].len /\ UNCHANGED phase
           ELSE IF runs[cur].hole THEN phase' = "fail" /\ UNCHANGED <<cur, off>>
           ELSE phase' = "read" /\ UNCHANGED <<cur, off>>
        /\ UNCHANGED <<ratio, runs, size, init, n, left, got>>
Read == /\ phase = "read"
        /\ IF left = 0 THEN phase' = (IF \E i \in 1..RU : got[i] = -2 THEN "fail" ELSE "done") /\ UNCHANGED <<cur, off, left, got>>
           ELSE IF runs[cur].hole THEN phase' = "fail" /\ UNCHANGED <<cur, off, left, got>>
           ELSE LET k == Min(left, CU * runs[cur].len - off) IN
                /\ got' = got \o [i \in 1..k |-> IF n * RU + RU - left + i - 1 >= init THEN -2 ELSE 1000 * cur + off + i - 1]
                /\ left' = left - k
                /\ IF k = left THEN off' = off + k /\ cur' = cur ELSE cur' = cur + 1 /\ off' = 0
                /\ UNCHANGED phase
        /\ UNCHANGED <<ratio, runs, size, init, n>>
Next == AddRun \/ SetSize \/ Ask \/ Walk \/ Read
Spec == Init /\ [][Next]_vars

Agree == /\ phase = "done" => got = Resolve(n)
         /\ phase = "fail" => Resolve(n) = << >>
Emit == phase = "idle" => PrintT(ToJson([ru |-> RU, cu |-> CU, runs |-> runs, size |-> size, init |-> init,
                                         want |-> [m \in 1..((Alloc \div RU) + 3) |-> Resolve(m - 1)]]))
=============================================================================

-------------------------------- MODULE Time --------------------------------
(***************************************************************************)
(* Timestamps and calendar time (C19).                                     *)
(*                                                                         *)
(* A timestamp counts 100 ns ticks since 1601-01-01; numbers are           *)
(* little-endian byte sequences.  The calendar is the proleptic Gregorian  *)
(* one: the machine finds the date of a day number by dividing into        *)
(* 400-year cycles, centuries, leap cycles and years; the contract counts  *)
(* the days before a date directly.                                        *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC, Json

CONSTANTS Years, Days, Secs, Ticks, Subs

VARIABLES y, m, d, s, tick, sub, t, phase, out
vars == <<y, m, d, s, tick, sub, t, phase, out>>

(* ---- calendar, counted directly ---- *)
Leap(yr) == yr % 4 = 0 /\ (yr % 100 # 0 \/ yr % 400 = 0)
MonthLen(yr, mo) == IF mo = 2 THEN (IF Leap(yr) THEN 29 ELSE 28) ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
LeapsUpTo(yr) == (yr \div 4) - (yr \div 100) + (yr \div 400)
DaysBeforeYear(yr) == 365 * (yr - 1601) + LeapsUpTo(yr - 1) - LeapsUpTo(1600)
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(yr, mo) == IF mo = 1 THEN 0 ELSE DaysBeforeMonth(yr, mo - 1) + MonthLen(yr, mo - 1)
DayNumber(yr, mo, dy) == DaysBeforeYear(yr) + DaysBeforeMonth(yr, mo) + dy - 1

(* ---- ticks of a moment from 1601 on ---- *)
Mul10M(a, n) == MulN(MulN(a, 10000, n), 1000, n)
TicksOf(day, sec, tk) == AddN(Mul10M(AddN(MulN(OfInt(day, 4), 86400, 8), OfInt(sec, 3), 8), 11), OfInt(tk, 4), 11)

(* ---- machine: ticks to calendar ---- *)
DayOf(x) == ToInt(Quot(Quot(Quot(x, 10000), 1000), 86400))
SecOf(x) == Rem(Quot(Quot(x, 10000), 1000), 86400)
TickOf(x) == Rem(Quot(x, 10000), 1000) * 10000 + Rem(x, 10000)
Min(a, b) == IF a < b THEN a ELSE b
Civil(n) ==
  LET c400 == n \div 146097       n1 == n % 146097
      c100 == Min(n1 \div 36524, 3) n2 == n1 - 36524 * c100
      c4 == n2 \div 1461          n3 == n2 % 1461
      c1 == Min(n3 \div 365, 3)    n4 == n3 - 365 * c1
      yr == 1601 + 400 * c400 + 100 * c100 + 4 * c4 + c1
      mo == CHOOSE k \in 1..12 : DaysBeforeMonth(yr, k) <= n4 /\ (k = 12 \/ n4 < DaysBeforeMonth(yr, k + 1))
  IN [y |-> yr, m |-> mo, d |-> n4 - DaysBeforeMonth(yr, mo) + 1]

EpochDiff == TicksOf(DayNumber(1970, 1, 1), 0, 0)

Init == y = 0 /\ m = 0 /\ d = 0 /\ s = 0 /\ tick = 0 /\ sub = 0 /\ t = << >> /\ phase = "date" /\ out = << >>
PickDate == /\ phase = "date"
            /\ \E yr \in Years, mo \in 1..12 : \E dy \in Days \cup {MonthLen(yr, mo)} :
                 dy <= MonthLen(yr, mo) /\ y' = yr /\ m' = mo /\ d' = dy
            /\ phase' = "time" /\ UNCHANGED <<s, tick, sub, t, out>>
PickTime == /\ phase = "time"
            /\ \E x \in Secs, k \in Ticks, n \in Subs : s' = x /\ tick' = k /\ sub' = n
            /\ phase' = "count" /\ UNCHANGED <<y, m, d, t, out>>
(* Years before 1601 and ticks beyond 64 bits have no timestamp; otherwise the tick that contains the moment. *)
Count == /\ phase = "count"
         /\ IF y < 1601 THEN phase' = "none" /\ UNCHANGED t
            ELSE LET x == TicksOf(DayNumber(y, m, d), s, tick) IN
                 t' = x /\ phase' = IF Fits(x, 8) THEN "stamp" ELSE "none"
         /\ UNCHANGED <<y, m, d, s, tick, sub, out>>
Back == /\ phase = "stamp"
        /\ LET c == Civil(DayOf(t)) IN out' = <<c.y, c.m, c.d, SecOf(t), TickOf(t)>>
        /\ phase' = "back" /\ UNCHANGED <<y, m, d, s, tick, sub, t>>
Next == PickDate \/ PickTime \/ Count \/ Back
Spec == Init /\ [][Next]_vars

Known == /\ EpochDiff = Ext(<<0, 128, 62, 213, 222, 177, 157, 1>>, 11)     \* 116444736000000000
         /\ DayNumber(1970, 1, 1) = 134774
RoundTrip == phase = "back" => out = <<y, m, d, s, tick>>
Contract == Known /\ RoundTrip
Emit == phase \in {"none", "back"} =>
  PrintT(ToJson([y |-> y, m |-> m, d |-> d, s |-> s, tick |-> tick, sub |-> sub, ok |-> phase = "back", t |-> t,
                 unix |-> (t # << >> /\ LessEq(EpochDiff, t))]))
=============================================================================

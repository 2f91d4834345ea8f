------------------------------- MODULE MC_Time ------------------------------
(***************************************************************************)
(* A clock that ticks day by day through a calendar.  Checked: the day      *)
(* number counts the ticks; every period is a contiguous run of days, starts*)
(* where PeriodStart says, the next one starts where it ends; midpoints lie *)
(* halfway; year lengths are those of the calendar.                         *)
(***************************************************************************)
EXTENDS Time, TLC
CONSTANTS Y0, Years, Cals
VARIABLES cal, y0, y, m, d, n    \* y0: the first year; n: days since the start
vars == <<cal, y0, y, m, d, n>>

(* the standard calendar through a Julian century and through the reform      *)
Starts == (Cals \X {Y0}) \union {<<"standard", 96>>, <<"standard", 1578>>, <<"standard", Y0>>}
Init == /\ \E s \in Starts : cal = s[1] /\ y0 = s[2]
        /\ y = y0 /\ m = 1 /\ d = 1 /\ n = 0
Tick ==
    /\ n' = n + 1 /\ UNCHANGED <<cal, y0>>
    /\ IF Skips(cal, y, m, d) THEN d' = 15 /\ UNCHANGED <<y, m>>
       ELSE IF d < DaysIn(cal, y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
       ELSE /\ d' = 1
            /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
               ELSE m' = 1 /\ y < y0 + Years /\ y' = y + 1
Spec == Init /\ [][Tick]_vars

S == <<y, m, d, 0, 0, 0>>
Freqs == {"hour", "day", "month", "season", "year"}
DayNumberCounts == DayNo(cal, y, m, d) = DayNo(cal, y0, 1, 1) + n
StartsBeforeNow == \A f \in Freqs :
    LET p == Period(f, cal, S) IN
    /\ NotAfter(PeriodStart(f, cal, p), Instant(cal, S))
    /\ Before(Instant(cal, S), PeriodStart(f, cal, p + 1))
MidHalfway == \A f \in Freqs :
    LET p == Period(f, cal, S) a == PeriodStart(f, cal, p) b == PeriodStart(f, cal, p + 1) c == Mid(a, b)
    IN /\ (c[1] - a[1]) * 86400 + (c[2] - a[2]) = (b[1] - c[1]) * 86400 + (b[2] - c[2])
       /\ c[2] \in 0..86399 /\ Before(a, c) /\ Before(c, b)
(* a period changes exactly on the first day of the next one               *)
Contiguous == [][\A f \in {"day", "month", "season", "year"} :
    LET p == Period(f, cal, S) q == Period(f, cal, S') IN
    /\ q \in {p, p + 1}
    /\ (q = p + 1) <=> (PeriodStart(f, cal, q) = Instant(cal, S'))]_vars
SeasonAgrees == (m % 3 = 0 /\ d = 1) => PeriodStart("season", cal, Period("season", cal, S)) = Instant(cal, S)
=============================================================================

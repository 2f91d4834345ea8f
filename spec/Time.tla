-------------------------------- MODULE Time --------------------------------
(***************************************************************************)
(* CF calendars.  A stamp is <<year, month, day, hour, minute, second>>;   *)
(* an instant is <<day number, second of the day>>.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Calendars == {"proleptic_gregorian", "standard", "gregorian", "julian",
              "noleap", "365_day", "all_leap", "366_day", "360_day"}

(* The standard calendar is Julian up to 4 October 1582, Gregorian from the  *)
(* next day, 15 October, on.                                                 *)
Mixed(cal) == cal \in {"standard", "gregorian"}
Leap(cal, y) ==
    CASE cal \in {"noleap", "365_day", "360_day"} -> FALSE
      [] cal \in {"all_leap", "366_day"}          -> TRUE
      [] cal = "julian" \/ (Mixed(cal) /\ y < 1583) -> y % 4 = 0
      [] OTHER -> y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)

DaysIn(cal, y, m) ==
    IF cal = "360_day" THEN 30
    ELSE IF m = 2 THEN (IF Leap(cal, y) THEN 29 ELSE 28)
    ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(cal, y, m) ==
    IF cal = "360_day" THEN 30 * (m - 1)
    ELSE CumDays[m] + (IF m > 2 /\ Leap(cal, y) THEN 1 ELSE 0)
DaysBeforeYear(cal, y) ==
    LET z == y - 1 IN
    CASE cal = "360_day"              -> 360 * y
      [] cal \in {"noleap", "365_day"}   -> 365 * y
      [] cal \in {"all_leap", "366_day"} -> 366 * y
      [] cal = "julian"               -> 365 * y + z \div 4
      [] OTHER                        -> 365 * y + z \div 4 - z \div 100 + z \div 400
DayNo(cal, y, m, d) ==
    IF ~Mixed(cal) THEN DaysBeforeYear(cal, y) + DaysBeforeMonth(cal, y, m) + d - 1
    ELSE DaysBeforeMonth(cal, y, m) + d - 1
         + (IF y > 1582 \/ (y = 1582 /\ (m > 10 \/ (m = 10 /\ d > 4)))
            THEN DaysBeforeYear("proleptic_gregorian", y) + 2 ELSE DaysBeforeYear("julian", y))
(* the day after 4 October 1582                                              *)
Skips(cal, y, m, d) == Mixed(cal) /\ y = 1582 /\ m = 10 /\ d = 4

Instant(cal, s) == <<DayNo(cal, s[1], s[2], s[3]), 3600 * s[4] + 60 * s[5] + s[6]>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NotAfter(a, b) == a = b \/ Before(a, b)
(* The midpoint of two instants (all periods are whole hours).              *)
Mid(a, b) ==
    LET d == a[1] + b[1]  s == a[2] + b[2] + (IF d % 2 = 1 THEN 86400 ELSE 0)
    IN <<(d \div 2) + ((s \div 2) \div 86400), (s \div 2) % 86400>>

(***************************************************************************)
(* Periods.  Month number 12 y + m - 1; the quarter of DJF starts in        *)
(* December, so that December, January, February have the same (12y+m)\div3.*)
(***************************************************************************)
MonthNo(s) == 12 * s[1] + s[2] - 1
Period(freq, cal, s) ==
    CASE freq = "hour"   -> 24 * DayNo(cal, s[1], s[2], s[3]) + s[4]
      [] freq = "day"    -> DayNo(cal, s[1], s[2], s[3])
      [] freq = "month"  -> MonthNo(s)
      [] freq = "season" -> (MonthNo(s) + 1) \div 3
      [] freq = "year"   -> s[1]
MonthStart(cal, k) == DayNo(cal, k \div 12, (k % 12) + 1, 1)
(* The instant at which period p begins.                                    *)
PeriodStart(freq, cal, p) ==
    CASE freq = "hour"   -> <<p \div 24, 3600 * (p % 24)>>
      [] freq = "day"    -> <<p, 0>>
      [] freq = "month"  -> <<MonthStart(cal, p), 0>>
      [] freq = "season" -> <<MonthStart(cal, 3 * p - 1), 0>>
      [] freq = "year"   -> <<DayNo(cal, p, 1, 1), 0>>
PeriodMid(freq, cal, p) == Mid(PeriodStart(freq, cal, p), PeriodStart(freq, cal, p + 1))
DaysOfMonthNo(cal, k) == DaysIn(cal, k \div 12, (k % 12) + 1)

SeasonMonths ==
    [DJF |-> <<12, 1, 2>>, JFM |-> <<1, 2, 3>>, FMA |-> <<2, 3, 4>>, MAM |-> <<3, 4, 5>>,
     AMJ |-> <<4, 5, 6>>, MJJ |-> <<5, 6, 7>>, JJA |-> <<6, 7, 8>>, JAS |-> <<7, 8, 9>>,
     ASO |-> <<8, 9, 10>>, SON |-> <<9, 10, 11>>, OND |-> <<10, 11, 12>>, NDJ |-> <<11, 12, 1>>]
SeasonOfMonth(m) == CASE m \in {12, 1, 2} -> "DJF" [] m \in {3, 4, 5} -> "MAM"
                      [] m \in {6, 7, 8} -> "JJA" [] OTHER -> "SON"
=============================================================================

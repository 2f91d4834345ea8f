----------------------------- MODULE MC_Spacing -----------------------------
(***************************************************************************)
(* A reader of time stamps that remembers the last one, the first step and *)
(* whether every step so far was like it, or led to the next month.        *)
(* Compared with the definitions of which axes can be averaged; every axis *)
(* of N stamps is emitted.                                                 *)
(***************************************************************************)
EXTENDS Climatology, TraceIO, IOUtils, TLC
CONSTANTS N, Cals, StartDays
Starts == {<<y, m, d, 0, 0, 0>> : y \in {1999, 2000}, m \in {1, 2, 11}, d \in StartDays}
Steps == {"6h", "day", "two days", "29 days", "30 days", "31 days", "month", "two months", "next day"}
VARIABLES cal, T, gap0, same, months0, sameMonths, eachMonth
vars == <<cal, T, gap0, same, months0, sameMonths, eachMonth>>

RECURSIVE AddDays(_, _, _)
AddDays(c, s, n) == IF n = 0 THEN s ELSE AddDays(c,
    IF s[3] < DaysIn(c, s[1], s[2]) THEN [s EXCEPT ![3] = s[3] + 1]
    ELSE IF s[2] < 12 THEN [s EXCEPT ![2] = s[2] + 1, ![3] = 1] ELSE [s EXCEPT ![1] = s[1] + 1, ![2] = 1, ![3] = 1], n - 1)
AddMonths(c, s, n) ==
    LET k == MonthNo(s) + n y == k \div 12 m == (k % 12) + 1
    IN [s EXCEPT ![1] = y, ![2] = m, ![3] = IF s[3] = DaysIn(c, s[1], s[2]) \/ s[3] > DaysIn(c, y, m) THEN DaysIn(c, y, m) ELSE s[3]]
Advance(c, s, st) ==
    CASE st = "6h" -> (IF s[4] < 18 THEN [s EXCEPT ![4] = s[4] + 6] ELSE AddDays(c, [s EXCEPT ![4] = 0], 1))
      [] st = "day" -> AddDays(c, s, 1) [] st = "two days" -> AddDays(c, s, 2)
      [] st = "29 days" -> AddDays(c, s, 29) [] st = "30 days" -> AddDays(c, s, 30) [] st = "31 days" -> AddDays(c, s, 31)
      [] st = "month" -> AddMonths(c, s, 1) [] st = "two months" -> AddMonths(c, s, 2)
      [] st = "next day" -> AddDays(c, AddMonths(c, s, 1), 1)      \* a day more than a month
Init == /\ cal \in Cals /\ \E s \in Starts : T = <<[s EXCEPT ![3] = IF s[3] > DaysIn(cal, s[1], s[2]) THEN DaysIn(cal, s[1], s[2]) ELSE s[3]]>>
        /\ gap0 = <<>> /\ same = TRUE /\ months0 = 0 /\ sameMonths = TRUE /\ eachMonth = TRUE
Read(st) ==
    LET s == T[Len(T)] t == Advance(cal, s, st) g == Gap(cal, s, t) m == MonthNo(t) - MonthNo(s) IN
    /\ Len(T) < N
    /\ T' = Append(T, t) /\ UNCHANGED cal
    /\ gap0' = (IF Len(T) = 1 THEN g ELSE gap0) /\ same' = (same /\ gap0' = g)
    /\ months0' = (IF Len(T) = 1 THEN m ELSE months0) /\ sameMonths' = (sameMonths /\ m > 0 /\ months0' = m)
    /\ eachMonth' = (eachMonth /\ m = 1)
Next == \E st \in Steps : Read(st)
Spec == Init /\ [][Next]_vars

Ok == Averageable(cal, T)
ReadInv == Len(T) > 1 =>
    /\ EqualSteps(cal, T) = same /\ EqualMonths(T) = sameMonths /\ OnePerMonth(T) = eachMonth
    /\ (MonthStarts(T) \/ MonthEnds(cal, T)) => sameMonths
(* a part of an axis that can be averaged can be averaged                     *)
PartInv == (Len(T) > 2 /\ Ok) => Averageable(cal, Tail(T)) /\ Averageable(cal, SubSeq(T, 1, Len(T) - 1))
(* losing an inner sample of four or more makes a uniform axis irregular      *)
Without(i) == SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T))
LossInv == (Len(T) > 3 /\ (EqualSteps(cal, T) \/ MonthStarts(T))) => \A i \in 2..(Len(T) - 1) :
    ~EqualSteps(cal, Without(i)) /\ ~MonthStarts(Without(i))
(* in a calendar of equal months all regular axes of whole months have equal steps *)
EqualInv == (cal = "360_day" /\ Len(T) > 1 /\ (MonthStarts(T) \/ MonthEnds(cal, T))) => EqualSteps(cal, T)
EmitCase == Len(T) = N => Emit(IOEnv.VP_CASES,
    [kind |-> "spacing", cal |-> cal, stamps |-> T, fine |-> Ok])
=============================================================================

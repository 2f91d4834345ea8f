--------------------------- MODULE MC_Climatology ---------------------------
(***************************************************************************)
(* The averages as a running system: a clock delivers one datum per tick,  *)
(* each datum is added to the accumulators of the periods it falls in, and *)
(* a period is closed when the clock leaves it.  Checked in every state:   *)
(* the definitions of module Climatology, applied to the history, give     *)
(* what the accumulators hold, no datum is lost or counted twice, and the  *)
(* anomalies of a period have weighted sum zero.                           *)
(* Every finished behaviour is emitted and replayed in the real code.      *)
(***************************************************************************)
EXTENDS Climatology, TraceIO, IOUtils
CONSTANTS Cals, Starts, Steps, N

QuickCals == {"proleptic_gregorian", "noleap", "360_day"}
QuickStarts == {<<1999, 11, 1, 0, 0, 0>>, <<2000, 2, 27, 6, 0, 0>>, <<2000, 1, 31, 12, 0, 0>>,
                <<1999, 12, 15, 0, 0, 0>>, <<2001, 6, 1, 18, 0, 0>>}
QuickSteps == {0, 6, 24, 240, 480}     \* hours; 0: a month
VARIABLES cal, step, now, T, X,      \* clock and history
          fine,                       \* accumulators <<count, sum>> per open/closed period, by frequency
          quarter, yearly,            \* <<days, days * mean>> per season / year, closed months only
          mon                         \* the open month: <<number, count, sum>>
vars == <<cal, step, now, T, X, fine, quarter, yearly, mon>>

NextDay(c, s) ==
    IF s[3] < DaysIn(c, s[1], s[2]) THEN <<s[1], s[2], s[3] + 1, s[4], 0, 0>>
    ELSE IF s[2] < 12 THEN <<s[1], s[2] + 1, 1, s[4], 0, 0>> ELSE <<s[1] + 1, 1, 1, s[4], 0, 0>>
AddDays(c, s, n) == LET A[i \in 0..n] == IF i = 0 THEN s ELSE NextDay(c, A[i - 1]) IN A[n]
AddHours(c, s, h) ==
    LET t == s[4] + h r == AddDays(c, s, t \div 24) IN <<r[1], r[2], r[3], t % 24, 0, 0>>
Advance(c, s, st) ==
    CASE st = 0 -> (IF s[2] < 12 THEN <<s[1], s[2] + 1, s[3], s[4], 0, 0>> ELSE <<s[1] + 1, 1, s[3], s[4], 0, 0>>)
      [] OTHER -> AddHours(c, s, st)

Fines == {"hour", "day", "month"}
Empty == [p \in {} |-> <<0, 0>>]
Bump(f, p, x) ==      \* add x to accumulator p of the function f
    LET old == IF p \in DOMAIN f THEN f[p] ELSE <<0, 0>>
        new == IF RIsNaN(x) THEN old ELSE <<old[1] + 1, RKeep(RAdd(old[2], x))>>
    IN [q \in DOMAIN f \union {p} |-> IF q = p THEN new ELSE f[q]]
Weigh(f, p, w, x) ==
    LET old == IF p \in DOMAIN f THEN f[p] ELSE <<0, 0>>
        new == IF RIsNaN(x) THEN old ELSE <<old[1] + w, RKeep(RAdd(old[2], RMul(w, x)))>>
    IN [q \in DOMAIN f \union {p} |-> IF q = p THEN new ELSE f[q]]
AccMean(a) == IF a[1] = 0 THEN RNaN ELSE RDiv(a[2], a[1])

Init == /\ cal \in Cals /\ step \in Steps /\ now \in Starts
        /\ now[3] <= DaysIn(cal, now[1], now[2]) /\ (step = 0 => now[3] <= 28)
        /\ T = <<>> /\ X = <<>>
        /\ fine = [f \in Fines |-> Empty] /\ quarter = Empty /\ yearly = Empty
        /\ mon = <<MonthNo(now), 0, 0>>

Deliver(x) ==
    /\ Len(T) < N
    /\ T' = Append(T, now) /\ X' = Append(X, x)
    /\ fine' = [f \in Fines |-> Bump(fine[f], Period(f, cal, now), x)]
    /\ mon' = IF MonthNo(now) = mon[1]
              THEN (IF RIsNaN(x) THEN mon ELSE <<mon[1], mon[2] + 1, RKeep(RAdd(mon[3], x))>>)
              ELSE (IF RIsNaN(x) THEN <<MonthNo(now), 0, 0>> ELSE <<MonthNo(now), 1, x>>)
    /\ IF MonthNo(now) = mon[1] THEN UNCHANGED <<quarter, yearly>>
       ELSE LET k == mon[1] v == AccMean(<<mon[2], mon[3]>>) IN     \* the month is closed
            /\ quarter' = Weigh(quarter, (k + 1) \div 3, DaysOfMonthNo(cal, k), v)
            /\ yearly' = Weigh(yearly, k \div 12, DaysOfMonthNo(cal, k), v)
    /\ now' = Advance(cal, now, step)
    /\ UNCHANGED <<cal, step>>
Value(n) == n * n + 1
Next == \E present \in BOOLEAN : Deliver(IF present THEN RKeep(Value(Len(T) + 1)) ELSE RKeep(RNaN))
Spec == Init /\ [][Next]_vars

Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RLe(RAbs(a (-) b), "1e-30")
G(f) == FineGroups(f, cal, T)
FineInv == T # <<>> => \A f \in (IF step \in {6, 24} THEN Fines ELSE {"day", "month"}) :
    LET A == CalendarAverage(f, cal, T, G(f), X) IN
    /\ DOMAIN A = FirstPeriod(f, cal, T)..LastPeriod(f, cal, T)
    /\ \A p \in DOMAIN A : Same(A[p], IF p \in DOMAIN fine[f] THEN AccMean(fine[f][p]) ELSE RNaN)
(* close the open month as well, then the coarse averages agree             *)
Closed(acc, f) == LET k == mon[1] IN
    Weigh(acc, Coarse(f, k), DaysOfMonthNo(cal, k), AccMean(<<mon[2], mon[3]>>))
CoarseInv == T # <<>> => \A f \in {"season", "year"} :
    LET A == CalendarAverage(f, cal, T, G(f), X)
        C == Closed(IF f = "season" THEN quarter ELSE yearly, f)
    IN /\ DOMAIN A = FirstPeriod(f, cal, T)..LastPeriod(f, cal, T)
       /\ \A p \in DOMAIN A : Same(A[p], IF p \in DOMAIN C THEN AccMean(C[p]) ELSE RNaN)
NothingLost == \A f \in Fines :
    LET g == GroupIdx(Keys(f, cal, T)) IN
    /\ UNION {Elems(g[p]) : p \in DOMAIN g} = 1..Len(T)
    /\ \A p, q \in DOMAIN g : p # q => Elems(g[p]) \cap Elems(g[q]) = {}
ClimInv == T # <<>> =>
    LET GM == G("month") IN
    /\ \A f \in Fines : LET L == Labels2(f, T) GL == GroupIdx(L) C == Climatology(GL, X) IN
         /\ DOMAIN C = Elems(L)
         /\ \A k \in DOMAIN C : \A y \in ReferenceYears(f, T) :
              Label(f, <<y, IF f = "month" THEN k ELSE IF f = "day" THEN k \div 100 ELSE k \div 10000, 1, 0, 0, 0>>) \in Int
    /\ \A f \in {"day", "month"} :
         LET GL == GroupIdx(Labels2(f, T)) B == AnomalyBase(f, cal, T, GL, GM, X) IN
         \A k \in DOMAIN GL : LET r == Finites([j \in 1..Len(GL[k]) |-> RSub(X[GL[k][j]], B[GL[k][j]])])
                              IN RLe(RAbs(RSum(r)), "1e-30")
(* one datum per month and no gaps: season means weigh their months by days  *)
SeasonInv == (T # <<>> /\ step = 0) =>
    \A s \in {"DJF", "JJA", "NDJ"} :
      LET c == SeasonClimate(s, cal, G("month"), X)
          in == SelectSeq([i \in 1..Len(T) |-> i], LAMBDA i : T[i][2] \in Elems(SeasonMonths[s]))
      IN Same(c, WMean(Pick(X, in), [j \in 1..Len(in) |-> DaysIn(cal, T[in[j]][1], T[in[j]][2])]))
EmitCase == Len(T) = N => Emit(IOEnv.VP_CASES,
    [kind |-> "replay", cal |-> cal, step |-> step, stamps |-> T,
     present |-> [i \in 1..N |-> ~RIsNaN(X[i])]])
=============================================================================

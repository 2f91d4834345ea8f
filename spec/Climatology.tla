----------------------------- MODULE Climatology ----------------------------
(***************************************************************************)
(* What the climatology functions compute for ONE series: stamps T (a      *)
(* sequence, increasing) in calendar cal and values X (NaN = missing).     *)
(* MC_Climatology checks these definitions against accumulators that are   *)
(* fed one datum per tick of a clock.                                      *)
(***************************************************************************)
EXTENDS Time, Arrays

Pick(X, idx) == [j \in 1..Len(idx) |-> X[idx[j]]]
First(s) == s[1]
Last(s) == s[Len(s)]

(* Mean weighted by w, of the pairs whose value is not missing.              *)
WMean(X, W) ==
    LET ok == SelectSeq([i \in 1..Len(X) |-> i], LAMBDA i : ~RIsNaN(X[i]))
    IN IF ok = <<>> THEN RNaN
       ELSE RDiv(RDot(Pick(X, ok), Pick(W, ok)), RSum(Pick(W, ok)))

---------------------------------------------------------------------------
(* calendar_average.  Periods(f, cal, T) are consecutive numbers.            *)
Keys(f, cal, T) == TLCEval([i \in 1..Len(T) |-> Period(f, cal, T[i])])
(* G: the groups of a fine frequency; the value of each period first..last   *)
FineAverage(G, first, last, X) ==
    TLCEval([p \in first..last |-> IF p \in DOMAIN G THEN SkipMean(Pick(X, G[p])) ELSE RNaN])
Coarse(f, k) == CASE f = "season" -> (k + 1) \div 3 [] f = "year" -> k \div 12
CoarseAverage(f, cal, M, X) ==      \* M: month means, a function of month numbers
    LET P == {Coarse(f, k) : k \in DOMAIN M}
        lo == CHOOSE p \in P : \A q \in P : p <= q
        hi == CHOOSE p \in P : \A q \in P : q <= p
        ms(p) == SelectSeq([j \in 1..12 |-> (IF f = "year" THEN 12 * p ELSE 3 * p - 1) + j - 1],
                           LAMBDA k : k \in DOMAIN M /\ Coarse(f, k) = p)
    IN TLCEval([p \in lo..hi |->
          LET m == ms(p) IN WMean([j \in 1..Len(m) |-> M[m[j]]],
                                  [j \in 1..Len(m) |-> DaysOfMonthNo(cal, m[j])])])
(* The averages of one series, a function of consecutive period numbers.     *)
CalendarAverage(f, cal, T, G, X) ==
    LET fine == IF f \in {"season", "year"} THEN "month" ELSE f
        M == FineAverage(G, Period(fine, cal, First(T)), Period(fine, cal, Last(T)), X)
    IN IF fine = f THEN M ELSE CoarseAverage(f, cal, M, X)
FineGroups(f, cal, T) == GroupIdx(Keys(IF f \in {"season", "year"} THEN "month" ELSE f, cal, T))
FirstPeriod(f, cal, T) == Period(f, cal, First(T))
LastPeriod(f, cal, T) == Period(f, cal, Last(T))

---------------------------------------------------------------------------
(* climatology_average: labels that ignore the year.                         *)
Label(f, s) == CASE f = "hour"  -> 10000 * s[2] + 100 * s[3] + s[4]
                 [] f = "day"   -> 100 * s[2] + s[3]
                 [] f = "month" -> s[2]
                 [] f = "season" -> SeasonOfMonth(s[2])
Labels2(f, T) == TLCEval([i \in 1..Len(T) |-> Label(f, T[i])])
Climatology(G, X) == TLCEval([k \in DOMAIN G |-> SkipMean(Pick(X, G[k]))])
SortedKeys(S) == SetToSeqInt(S)
(* A season: the day-weighted mean of the means of its months in all years.  *)
SeasonClimate(season, cal, GM, X) ==
    LET ms == {k \in DOMAIN GM : ((k % 12) + 1) \in Elems(SeasonMonths[season])}
        q == SetToSeqInt(ms)
    IN WMean([j \in 1..Len(q) |-> SkipMean(Pick(X, GM[q[j]]))],
             [j \in 1..Len(q) |-> DaysOfMonthNo(cal, q[j])])
(* Reference years a climatology may be labelled with.                       *)
Median2(years) ==      \* twice the median of the years
    LET s == SortInts(years) n == Len(s)
    IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
ReferenceYears(f, T) ==
    LET ys == [i \in 1..Len(T) |-> T[i][1]]
        m2 == Median2(ys)
        lp == {T[i][1] : i \in {j \in 1..Len(T) : T[j][2] = 2 /\ T[j][3] = 29}}
    IN IF f \in {"hour", "day"} /\ lp # {}
       THEN {y \in lp : \A z \in lp : AbsI(2 * y - m2) <= AbsI(2 * z - m2)}
       ELSE {m2 \div 2, (m2 + 1) \div 2}

---------------------------------------------------------------------------
(* climate_anomaly: every datum minus the mean of its own period.            *)
AnomalyBase(f, cal, T, G, GM, X) ==     \* mean to subtract from each datum
    CASE f \in {"day", "month"} ->
           LET C == Climatology(G, X) IN [i \in 1..Len(T) |-> C[Label(f, T[i])]]
      [] f = "season" ->
           LET C == TLCEval([s \in {"DJF", "MAM", "JJA", "SON"} |-> SeasonClimate(s, cal, GM, X)])
           IN [i \in 1..Len(T) |-> C[SeasonOfMonth(T[i][2])]]
      [] f = "year" ->
           LET A == CalendarAverage("year", cal, T, GM, X)
           IN [i \in 1..Len(T) |-> A[T[i][1]]]

---------------------------------------------------------------------------
(* Which time axes can be averaged: uniform ones (equal steps, or equal      *)
(* numbers of months between starts or ends of months) and those with one    *)
(* sample in each month.  Stamps as <<y, m, d, h, mi, s>> or with            *)
(* microseconds; at least three of them.                                     *)
Gap(cal, s, t) ==       \* days, seconds, microseconds
    LET a == Instant(cal, s) b == Instant(cal, t)
        us == (IF Len(t) > 6 THEN t[7] ELSE 0) - (IF Len(s) > 6 THEN s[7] ELSE 0)
        c == b[2] - a[2] - (IF us < 0 THEN 1 ELSE 0)
    IN <<b[1] - a[1] - (IF c < 0 THEN 1 ELSE 0), IF c < 0 THEN c + 86400 ELSE c, IF us < 0 THEN us + 1000000 ELSE us>>
Constant(n, g(_)) == \A i \in 2..n : g(i) = g(1)
EqualSteps(cal, T) == Constant(Len(T) - 1, LAMBDA i : Gap(cal, T[i], T[i + 1]))
EqualMonths(T) == Constant(Len(T) - 1, LAMBDA i : MonthNo(T[i + 1]) - MonthNo(T[i])) /\ MonthNo(T[2]) > MonthNo(T[1])
ClockOf(t) == SubSeq(t, 4, Len(t))
AtMidnight(T) == \A i \in 1..Len(T) : \A j \in 4..Len(T[i]) : T[i][j] = 0
MonthStarts(T) == EqualMonths(T) /\ AtMidnight(T) /\ \A i \in 1..Len(T) : T[i][3] = 1
MonthEnds(cal, T) == EqualMonths(T) /\ AtMidnight(T) /\ \A i \in 1..Len(T) : T[i][3] = DaysIn(cal, T[i][1], T[i][2])
OnePerMonth(T) == \A i \in 1..(Len(T) - 1) : MonthNo(T[i + 1]) = MonthNo(T[i]) + 1
Averageable(cal, T) == EqualSteps(cal, T) \/ MonthStarts(T) \/ MonthEnds(cal, T) \/ OnePerMonth(T)
(* Neither uniform nor one per month, yet regular in another sense (the same *)
(* day of every second month, working days): no claim.                       *)
Weekdays(cal, T) == \A i \in 1..(Len(T) - 1) : Gap(cal, T[i], T[i + 1]) \in {<<1, 0, 0>>, <<3, 0, 0>>}
OtherwiseRegular(cal, T) == EqualMonths(T) \/ Weekdays(cal, T)

---------------------------------------------------------------------------
(* month_to_season: centre months and means of three neighbours.             *)
Centres(season, T) ==
    LET mid == SeasonMonths[season][2]
        lo == MonthNo(First(T)) hi == MonthNo(Last(T))
    IN SelectSeq([j \in 1..(hi - lo + 1) |-> lo + j - 1], LAMBDA k : (k % 12) + 1 = mid)
ThreeMonths(GM, X, k) ==
    LET ks == SelectSeq(<<k - 1, k, k + 1>>, LAMBDA j : j \in DOMAIN GM)
        Cat(j) == IF j > Len(ks) THEN <<>> ELSE Pick(X, GM[ks[j]])
    IN SkipMean(Cat(1) \o Cat(2) \o Cat(3))
=============================================================================

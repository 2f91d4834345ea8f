--------------------------- MODULE T_Climatology ----------------------------
(***************************************************************************)
(* Judges recorded calls of the climatology functions (properties C01-C08).*)
(* An event's args: data (DataArray or Dataset), tdim (its time dimension),*)
(* freq or season, custom (requested seasons), keep ("true", "false",      *)
(* "none", "default").                                                     *)
(***************************************************************************)
EXTENDS Climatology, Trace

Tol(d) == IF d.dtype \in {"float32", "float16"} THEN "1e-4" ELSE "1e-9"
T(d, tdim) == Coord(d, tdim).v
CalOf(d, tdim) == LET dt == Coord(d, tdim).dtype IN
    CASE dt = "datetime64" -> "proleptic_gregorian"
      [] dt = "cftime:noleap" -> "noleap" [] dt = "cftime:360_day" -> "360_day"
      [] dt = "cftime:julian" -> "julian" [] dt = "cftime:all_leap" -> "all_leap"
      [] dt = "cftime:standard" -> "standard" [] dt = "cftime:proleptic_gregorian" -> "proleptic_gregorian"

(* The expected series for one input series, and how long it is.             *)
Prepare(op, a, d) ==      \* everything that depends on the stamps only
    LET t == T(d, a.tdim) cal == CalOf(d, a.tdim) IN
    [t |-> t, cal |-> cal,
     g |-> CASE op = "calendar_average" -> FineGroups(a.freq, cal, t)
             [] op \in {"climatology_average", "climate_anomaly"} /\ a.freq \in {"hour", "day", "month"} ->
                  GroupIdx(Labels2(a.freq, t))
             [] OTHER -> FineGroups("month", cal, t),
     gm |-> FineGroups("month", cal, t),
     keys |-> IF op = "climatology_average" /\ a.freq # "season"
              THEN SetToSeqInt(Elems(Labels2(a.freq, t)))
              ELSE IF op = "month_to_season" THEN Centres(a.season, t) ELSE <<>>]

Expected(op, a, P, X) ==
    CASE op = "calendar_average" ->
           LET A == CalendarAverage(a.freq, P.cal, P.t, P.g, X)
               lo == FirstPeriod(a.freq, P.cal, P.t) hi == LastPeriod(a.freq, P.cal, P.t)
           IN [j \in 1..(hi - lo + 1) |-> A[lo + j - 1]]
      [] op = "climatology_average" /\ a.freq # "season" ->
           LET C == Climatology(P.g, X) IN [j \in 1..Len(P.keys) |-> C[P.keys[j]]]
      [] op = "climatology_average" /\ a.freq = "season" ->
           [j \in 1..Len(a.custom) |-> SeasonClimate(a.custom[j], P.cal, P.gm, X)]
      [] op = "climate_anomaly" ->
           LET B == AnomalyBase(a.freq, P.cal, P.t, P.g, P.gm, X)
           IN [j \in 1..Len(X) |-> RSub(X[j], B[j])]
      [] op = "month_to_season" ->
           [j \in 1..Len(P.keys) |-> ThreeMonths(P.gm, X, P.keys[j])]

ExpectedLen(op, a, P) ==
    CASE op = "calendar_average" -> LastPeriod(a.freq, P.cal, P.t) - FirstPeriod(a.freq, P.cal, P.t) + 1
      [] op = "climatology_average" /\ a.freq = "season" -> Len(a.custom)
      [] op = "climate_anomaly" -> Len(P.t)
      [] OTHER -> Len(P.keys)

OutDim(op, a) == IF op = "climatology_average" /\ a.freq = "season" THEN "season" ELSE a.tdim
(* r0 has the dimensions of d with the time dimension (renamed) resized      *)
ShapeOf(op, a, d, r0) ==
    LET od == OutDim(op, a) ds == ReplacedAt(d.dims, Axis(d, a.tdim), od) IN
    CASE r0.k # "da" -> "result is not a DataArray"
      [] ~SameDims(r0, ds) -> "dimensions"
      [] OTHER -> LET r == Transpose(r0, ds) IN
           IF \E i \in 1..Len(ds) : ds[i] # od /\ r.shape[i] # d.shape[i] THEN "sizes of the other dimensions" ELSE ""

Values(op, a, d, r0) ==
    LET od == OutDim(op, a) ax == Axis(d, a.tdim)
        P == TLCEval(Prepare(op, a, d))
        r == Transpose(r0, ReplacedAt(d.dims, ax, od))
        n == ExpectedLen(op, a, P)
    IN IF r.shape[ax] # n THEN "number of periods"
       ELSE IF \A o \in 1..Outer(d.shape, ax), i \in 1..Inner(d.shape, ax) :
                LET X == Along(d, ax, o, i) Y == Along(r, ax, o, i)
                    E == TLCEval(Expected(op, a, P, X))
                    tol == RMul(Tol(d), RMaxAbs(X))
                IN \A j \in 1..n : Within(E[j], Y[j], tol)
            THEN "" ELSE "values"

Hms(inst) == <<inst[2] \div 3600, (inst[2] % 3600) \div 60, inst[2] % 60>>
StampIs(cal, s, inst) == Instant(cal, s) = inst /\ s[7] = 0
Stamps(op, a, d, r) ==
    IF ~HasCoord(r, OutDim(op, a)) THEN "no coordinate on the result dimension" ELSE
    LET P == TLCEval(Prepare(op, a, d)) c == Coord(r, OutDim(op, a)) n == ExpectedLen(op, a, P)
        cal == P.cal
        tdt == Coord(d, a.tdim).dtype
        cfdt == IF tdt = "datetime64" THEN "cftime:proleptic_gregorian" ELSE tdt
    IN
    CASE c.shape # <<n>> -> "number of stamps"
      [] op = "calendar_average" ->
           IF c.dtype # tdt THEN "calendar or type of the stamps"
           ELSE LET lo == FirstPeriod(a.freq, cal, P.t) IN
                IF \A j \in 1..n : StampIs(cal, c.v[j], PeriodMid(a.freq, cal, lo + j - 1))
                THEN "" ELSE "stamps are not the midpoints"
      [] op = "climatology_average" /\ a.freq # "season" ->
           IF c.dtype # cfdt THEN "calendar or type of the stamps"
           ELSE IF \E y \in ReferenceYears(a.freq, P.t) :
                    \A j \in 1..n :
                      LET k == P.keys[j]
                          m == CASE a.freq = "month" -> k [] a.freq = "day" -> k \div 100 [] OTHER -> k \div 10000
                          dd == CASE a.freq = "month" -> 1 [] a.freq = "day" -> k % 100 [] OTHER -> (k \div 100) % 100
                          h == IF a.freq = "hour" THEN k % 100 ELSE 0
                      IN StampIs(cal, c.v[j], PeriodMid(a.freq, cal, Period(a.freq, cal, <<y, m, dd, h, 0, 0>>)))
                THEN "" ELSE "stamps are not midpoints in the reference year"
      [] op = "climatology_average" /\ a.freq = "season" ->
           IF c.v = a.custom THEN "" ELSE "season labels"
      [] op = "climate_anomaly" -> IF c.v = P.t /\ c.dtype = tdt THEN "" ELSE "time axis changed"
      [] op = "month_to_season" ->
           IF c.dtype = tdt /\ \A j \in 1..n : StampIs(cal, c.v[j], <<MonthStart(cal, P.keys[j]), 0>>)
           THEN "" ELSE "stamps are not the starts of the centre months"

SameAttrs(x, y) == x.attrs = y.attrs
(* attributes of the object passed in, and its coordinates off the time axis *)
AttrClause(a, in, out) ==
    CASE a.keep = "true" -> IF SameAttrs(in, out) THEN "" ELSE "attributes not kept"
      [] a.keep = "false" -> IF out.attrs = <<>> THEN "" ELSE "attributes not dropped"
      [] OTHER -> ""
(* (climate_anomaly: the coordinates of the other dimensions)                *)
CoordClause(op, a, d, r) ==
    IF \A i \in 1..Len(d.coords) :
         a.tdim \in Elems(d.coords[i].dims)
         \/ (op = "climate_anomaly" /\ d.coords[i].dims # <<d.coords[i].n>>)
         \/ (HasCoord(r, d.coords[i].n) /\ SameCoord(d.coords[i], Coord(r, d.coords[i].n)))
    THEN "" ELSE "coordinates off the time axis"

Or(x, y) == IF x # "" THEN x ELSE y
JudgeVar(e, d, r) ==
    LET op == e.op a == e.args IN
    CASE Prop = "C02" -> Stamps(op, a, d, r)
      [] Prop = "C08" -> Or(ShapeOf(op, a, d, r), Or(Values(op, a, d, r), CoordClause(op, a, d, r)))
      [] Prop = "C05" -> Or(ShapeOf(op, a, d, r), Or(Values(op, a, d, r), Or(Stamps(op, a, d, r),
                            IF a.keep \in {"false", "skip"} THEN AttrClause(a, d, r) ELSE AttrClause([keep |-> "true"], d, r))))
      [] Prop \in {"C04", "C06"} -> Or(ShapeOf(op, a, d, r), Or(Values(op, a, d, r), Stamps(op, a, d, r)))
      [] OTHER -> Or(ShapeOf(op, a, d, r), Values(op, a, d, r))

TimeVars(ds, tdim) == {j \in 1..Len(ds.vars) : tdim \in Elems(ds.vars[j].dims)}
JudgeDs(e, D, R) ==
    IF R.k # "ds" THEN "result is not a Dataset" ELSE
    LET bad == {j \in TimeVars(D, e.args.tdim) :
                  PosOf(R.names, D.names[j]) = 0
                  \/ JudgeVar([e EXCEPT !.args.keep = "skip"], D.vars[j], R.vars[PosOf(R.names, D.names[j])]) # ""}
    IN IF bad # {} THEN
          LET j == CHOOSE j \in bad : TRUE IN
          IF PosOf(R.names, D.names[j]) = 0 THEN "variable lost"
          ELSE JudgeVar([e EXCEPT !.args.keep = "skip"], D.vars[j], R.vars[PosOf(R.names, D.names[j])])
       ELSE AttrClause(e.args, D, R)

(* The exception that has to come ("ok": none; "": nothing in particular);   *)
(* for C07 judging also whether the stamps are ones that can be averaged.    *)
Frequencies == [calendar_average |-> {"hour", "day", "month", "season", "year"},
                climatology_average |-> {"hour", "day", "month", "season"},
                climate_anomaly |-> {"day", "month", "season", "year"}]
HoldsDates(c) == c.dtype = "datetime64" \/ (Len(c.dtype) > 7 /\ SubSeq(c.dtype, 1, 7) = "cftime:")
Seasons(op, a) ==
    CASE op = "month_to_season" /\ a.season \notin DOMAIN SeasonMonths -> "KeyError"
      [] op = "month_to_season" /\ a.data.k = "da" /\ a.data.shape[Axis(a.data, a.tdim)] % 12 # 0 -> "ValueError"
      [] op = "climatology_average" /\ a.freq = "season" /\ ~(Elems(a.custom) \subseteq DOMAIN SeasonMonths) -> "ValueError"
      [] OTHER -> "ok"
Required(op, a) ==
    LET d == a.data t == T(d, a.tdim) IN
    CASE Prop # "C07" -> Seasons(op, a)
      [] a.freq \notin Frequencies[op] -> "ValueError"
      [] ~HoldsDates(Coord(d, a.tdim)) -> "ValueError"
      [] Len(t) < 3 -> ""
      [] Averageable(CalOf(d, a.tdim), t) -> "ok"
      [] OtherwiseRegular(CalOf(d, a.tdim), t) -> ""
      [] op = "climate_anomaly" -> "Error"
      [] OTHER -> "ValueError"
JudgeRejection(e) ==
    LET x == Required(e.op, e.args) IN
    CASE x = "" -> ""
      [] x = "ok" -> IF e.outcome = "ok" THEN "" ELSE "rejected: " \o e.error
      [] e.outcome = "ok" -> "accepted, expected " \o x
      [] x = "Error" \/ e.error = x -> ""
      [] OTHER -> "raised " \o e.error \o " instead of " \o x
JudgeC(s, k) ==
    LET e == s.events[k] a == e.args IN
    CASE Prop = "C07" \/ Required(e.op, a) # "ok" -> JudgeRejection(e)
      [] e.outcome # "ok" -> "raised " \o e.error
      [] a.data.k = "ds" -> JudgeDs(e, a.data, e.result)
      [] Prop = "C08" -> Or(JudgeVar(e, a.data, e.result), AttrClause(a, a.data, e.result))
      [] OTHER -> JudgeVar(e, a.data, e.result)
=============================================================================

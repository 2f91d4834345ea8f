------------------------------ MODULE T_Meteo -------------------------------
(***************************************************************************)
(* Judges recorded calls of the pointwise meteorological functions         *)
(* (M02-M08, M10).  a.xs are the arrays passed, in the order of the        *)
(* function's arguments.                                                   *)
(***************************************************************************)
EXTENDS Meteo, Trace

Or(x, y) == IF x # "" THEN x ELSE y
AnyF32(S) == \E i \in 1..Len(S) : IsF32(S[i])
AllDa(xs) == \A i \in 1..Len(xs) : xs[i].k = "da"
(* the values that meet at position p of the result                          *)
Meeting(xs, r, p) ==
    IF AllDa(xs) THEN LET L == Labels(r, p) IN [i \in 1..Len(xs) |-> AtDims(xs[i], L)]
    ELSE [i \in 1..Len(xs) |-> xs[i].v[p]]

(* the frame of a pointwise result: container, dims, shape, coordinates      *)
Kinds(k) == CASE k = "da" -> {"da"} [] k = "nd" -> {"nd", "num"} [] k = "list" -> {"list", "nd"} [] k = "num" -> {"num", "nd"}
Frame(x, xs, r) ==
    CASE "k" \notin DOMAIN r -> "result is of another type"
      [] r.k \notin Kinds(x.k) -> "result has another container"
      [] x.k = "da" /\ ~SameDims(r, x.dims) -> "dimensions"
      [] x.k = "da" /\ (\A i \in 1..Len(xs) : xs[i].k = "da" => xs[i].dims = x.dims) /\ r.dims # x.dims -> "order of dimensions"
      [] x.k = "da" /\ \E i \in 1..Len(x.dims) : r.shape[Axis(r, x.dims[i])] # x.shape[i] -> "sizes"
      [] x.k # "da" /\ r.shape # x.shape -> "shape"
      [] x.k = "da" /\ \E i \in 1..Len(x.coords) :
           ~(HasCoord(r, x.coords[i].n) /\ SameCoord(Coord(r, x.coords[i].n), x.coords[i])) -> "coordinates"
      [] OTHER -> ""
Units(x, r, u) == IF x.k = "da" /\ ~(HasAttr(r, "units") /\ Attr(r, "units").s = "'" \o u \o "'") THEN "units" ELSE ""

(* is y acceptable for the values v that meet?                               *)
AnyNaN(v) == \E i \in 1..Len(v) : RIsNaN(v[i])
Rel(f32) == IF f32 THEN "2e-5" ELSE "1e-9"
(* Heat index: two bases are possible where Steadman's average is within     *)
(* rounding of the critical value.                                           *)
HeatOk(a, v, y, f32) ==
    LET t == v[1] r == v[2]
        tol == IF f32 THEN "0.005" ELSE "0.0000005"
        near == RLe(RAbs(RSub(Steadman(t, r), Crit(a.alt))), IF f32 THEN "0.0001" ELSE "0.00000001")
        bases == {Base(a.alt, t, r)} \union (IF near /\ ~Cold(t) THEN {"simple", "regression"} ELSE {})
    IN IF RIsNaN(t) THEN RIsNaN(y)
       ELSE IF RIsNaN(r) THEN RIsNaN(y) \/ (Cold(t) /\ Within(t, y, tol))
       ELSE \E b \in bases : Within(HeatBy(b, a.alt, t, r), y, tol)
RelHumOk(v, y, f32) ==
    IF AnyNaN(v) THEN RIsNaN(y)
    ELSE LET es == SatTable(v[1])
             scale == RDiv(RMul(RMul(100, RAbs(v[2])), RAdd(v[3], es)), RMul("0.622", es))
         IN Within(RelHum(v[1], v[2], v[3]), y, RMul(Rel(f32), RMax(scale, "0.0001")))
MagnusOk(es, v, y, f32) ==
    IF AnyNaN(v) THEN RIsNaN(y)
    ELSE LET scale == RDiv(RMul(RMul(100, RAbs(v[2])), RAdd(RMul("0.01", v[3]), es)), RMul("0.622", es))
         IN Within(RMul(100, RDiv(v[2], SatMixing(es, v[3]))), y, RMul(Rel(f32), RMax(scale, "1e-30")))
PointOk(op, a, v, y, f32) ==
    CASE op = "heat_index" -> HeatOk(a, v, y, f32)
      [] op = "relhum" -> RelHumOk(v, y, f32)
      [] op = "relhum_ice" -> IF AnyNaN(v) THEN RIsNaN(y) ELSE MagnusOk(MagnusIce(v[1]), v, y, f32)
      [] op = "relhum_water" -> IF AnyNaN(v) THEN RIsNaN(y) ELSE MagnusOk(MagnusWater(v[1]), v, y, f32)
      [] op = "dewtemp" -> IF AnyNaN(v) THEN RIsNaN(y) ELSE Close(DewPoint(v[1], v[2]), y, Rel(f32), "0.001")
      [] op \in {"saturation_vapor_pressure", "actual_saturation_vapor_pressure"} ->
           LET fill == a.fill.v[1] IN
           IF RIsNaN(v[1]) \/ RLe(v[1], 32) THEN Close(fill, y, Rel(f32), "1e-30")
           ELSE Close(Svp(v[1], fill), y, Rel(f32), "1e-30")
      [] op = "saturation_vapor_pressure_slope" ->
           LET fill == a.fill.v[1] IN
           IF RIsNaN(v[1]) \/ RLe(v[1], 32) THEN Close(fill, y, Rel(f32), "1e-30")
           ELSE Close(SvpSlope(v[1], fill), y, Rel(f32), "1e-30")
      [] op = "psychrometric_constant" ->
           IF RIsNaN(v[1]) THEN RIsNaN(y) ELSE Close(Psychrometric(v[1]), y, Rel(f32), "1e-30")
(* order relations among the results of one call (dew point)                 *)
DewOrder(a, r) ==
    \A p \in 1..Len(r.v) : LET v == Meeting(a.xs, r, p) y == r.v[p] IN
        ~AnyNaN(v) =>
          /\ REq(v[2], 100) => Close(v[1], y, Rel(AnyF32(a.xs)), 1)
          /\ RLt(v[2], 99) => RLt(y, v[1])
UnitsOf(op, a, r) ==
    CASE op \in {"saturation_vapor_pressure", "actual_saturation_vapor_pressure"} -> Units(a.xs[1], r, "kPa")
      [] op = "saturation_vapor_pressure_slope" -> Units(a.xs[1], r, "kPa/C")
      [] op = "psychrometric_constant" -> Units(a.xs[1], r, "kPa/C")
      [] op = "dewtemp" -> Units(a.xs[1], r, "Kelvin")
      [] op = "heat_index" -> Units(a.xs[1], r, "F")
      [] op = "relhum" -> Units(a.xs[1], r, "percentage")
      [] OTHER -> ""
JudgePoint(op, a, r) ==
    LET f32 == AnyF32(a.xs) IN
    Or(Frame(a.xs[1], a.xs, r),
    Or(IF \E p \in 1..Len(r.v) : ~PointOk(op, a, Meeting(a.xs, r, p), r.v[p], f32) THEN "values" ELSE "",
    Or(UnitsOf(op, a, r),
       IF op = "dewtemp" /\ ~DewOrder(a, r) THEN "order" ELSE "")))

(* max_daylight: days by latitudes.  Close to the polar limits the cosine    *)
(* may round to either side of 1.                                            *)
DayOk(c, y, d) ==
    LET lo == RSub(c, d) hi == RAdd(c, d) lim(x) == RMin(1, RMax(-1, x)) e == "1e-9"
    IN IF RLt(1, lo) \/ RLt(hi, -1) THEN RIsNaN(y)
       ELSE \/ (RLt(1, hi) \/ RLt(lo, -1)) /\ RIsNaN(y)
            \/ ~RIsNaN(y) /\ RLe(RSub(DayLength(lim(hi)), e), y) /\ RLe(y, RAdd(DayLength(lim(lo)), e))
JudgeDaylight(a, r) ==
    LET j == a.xs[1] l == a.xs[2] n == Len(j.v) m == Len(l.v)
        f32 == j.k # "nd" \/ l.k # "nd" \/ AnyF32(a.xs)   (* all but ndarrays go through float32 *)
        d(lat) == RMul(IF f32 THEN "3e-6" ELSE "1e-11", RAdd(1, RAbs(RTan(RDeg2Rad(lat)))))
    IN CASE j.k = "da" /\ r.k # "da" -> "result is not a DataArray"
         [] j.k # "da" /\ r.k # "nd" -> "result is not an ndarray"
         [] r.shape # <<n, m>> -> "shape"
         [] j.k = "da" /\ (~HasCoord(r, r.dims[1]) \/ ~HasCoord(r, r.dims[2])) -> "coordinates"
         [] j.k = "da" /\ (~SameValues(Coord(r, r.dims[1]).v, j.v, "1e-6") \/ ~SameValues(Coord(r, r.dims[2]).v, l.v, "1e-6")) -> "coordinate values"
         [] \E p \in 1..Len(r.v) :
              LET ix == IdxPos(r.shape, p) c == CosSunset(j.v[ix[1]], l.v[ix[2]]) IN
              IF RIsNaN(j.v[ix[1]]) \/ RIsNaN(l.v[ix[2]]) THEN ~RIsNaN(r.v[p]) ELSE ~DayOk(c, r.v[p], d(l.v[ix[2]])) -> "values"
         [] \E i \in 1..n, k1 \in 1..m, k2 \in 1..m :
              LET x == r.v[(i - 1) * m + k1] y == r.v[(i - 1) * m + k2] IN
              /\ REq(l.v[k1], RNeg(l.v[k2])) /\ ~RIsNaN(x) /\ ~RIsNaN(y)
              /\ ~Within(24, RAdd(x, y), IF f32 THEN "0.0001" ELSE "1e-9") -> "symmetry"
         [] OTHER -> Units(j, r, "hours/day")

(* M10: event k holds the values of event 1 in another container; a.of gives *)
(* for every element its position in event 1.                                *)
JudgeSame(s, k) ==
    LET a == s.events[k].args r == s.events[k].result ref == s.events[1].result
        sc == RMax("1e-12", RMaxAbs(Finites(ref.v)))
        of(p) == IF r.k = "da" THEN AtDims(a.of, Labels(r, p)) ELSE a.of.v[p]
    IN Or(Frame(a.xs[1], a.xs, r),
       Or(IF \E p \in 1..Len(r.v) : ~Within(ref.v[of(p)], r.v[p], RMul("1e-10", sc)) THEN "values depend on the container" ELSE "",
          UnitsOf(s.events[k].op, a, r)))

JudgeM(s, k) ==
    LET e == s.events[k] x == e.args.expect IN
    CASE x # "ok" ->
           (CASE e.outcome = "ok" -> "accepted, expected " \o x
              [] x = "Error" \/ e.error = x -> ""
              [] OTHER -> "raised " \o e.error \o " instead of " \o x)
      [] e.outcome # "ok" -> "raised " \o e.error
      [] e.op = "max_daylight" -> JudgeDaylight(e.args, e.result)
      [] Prop = "M10" /\ k > 1 -> JudgeSame(s, k)
      [] OTHER -> JudgePoint(e.op, e.args, e.result)
=============================================================================

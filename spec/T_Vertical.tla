----------------------------- MODULE T_Vertical -----------------------------
(***************************************************************************)
(* Judges recorded calls of the vertical coordinate functions (V01-V06,    *)
(* M01, M09).                                                              *)
(***************************************************************************)
EXTENDS Vertical, Trace

Or(x, y) == IF x # "" THEN x ELSE y
Rel(x) == IF x.dtype \in {"float32", "float16"} THEN "2e-6" ELSE "1e-10"
RelOf(S) == IF \E x \in S : x.dtype \in {"float32", "float16"} THEN "2e-6" ELSE "1e-10"
Scalar(x) == x.v[1]
UnitIs(r, u) == HasAttr(r, "units") /\ Attr(r, "units").s = "'" \o u \o "'"

---------------------------------------------------------------------------
(* pressure_at_hybrid_levels, delta_pressure_hybrid                          *)
HybridNo(op, a, r) == IF op = "pressure_at_hybrid_levels" THEN a.hya.shape[1] ELSE a.hya.shape[1] - 1
HybridValue(op, a, k, ps) ==
    LET p(j) == LevelPressure(a.hya.v[j], a.hyb.v[j], Scalar(a.p0), ps)
    IN IF op = "pressure_at_hybrid_levels" THEN p(k) ELSE RAbs(RSub(p(k), p(k + 1)))
HybridScale(op, a, k, ps) ==
    LET s(j) == RMax(RAbs(RMul(a.hya.v[j], Scalar(a.p0))), RAbs(RMul(a.hyb.v[j], ps)))
    IN IF op = "pressure_at_hybrid_levels" THEN s(k) ELSE RMax(s(k), s(k + 1))
HybridOk(op, a, k, ps, y) ==
    IF RIsNaN(ps) THEN RIsNaN(y)
    ELSE Within(HybridValue(op, a, k, ps), y, RMul(RelOf({a.hya, a.hyb, a.ps}), HybridScale(op, a, k, ps)))
JudgeHybrid(op, a, r) ==
    LET n == HybridNo(op, a, r) IN
    IF a.ps.k = "da" THEN
       (LET ld == IF a.hya.k = "da" THEN a.hya.dims[1] ELSE r.dims[1] IN
        CASE r.k # "da" -> "result is not a DataArray"
          [] a.hya.k = "da" /\ ~SameDims(r, <<ld>> \o a.ps.dims) -> "dimensions"
          [] r.shape # <<n>> \o a.ps.shape -> "shape"
          [] \E p \in 1..Len(r.v) : LET ix == IdxPos(r.shape, p) IN
               ~HybridOk(op, a, ix[1], a.ps.v[PosIdx(a.ps.shape, Tail(ix))], r.v[p]) -> "values"
          [] op = "delta_pressure_hybrid" /\ \E i \in 1..Len(a.ps.coords) :
               ~(HasCoord(r, a.ps.coords[i].n) /\ SameCoord(Coord(r, a.ps.coords[i].n), a.ps.coords[i])) -> "coordinates"
          [] op = "delta_pressure_hybrid" /\ ~UnitIs(r, "Pa") -> "units"
          [] OTHER -> "")
    ELSE
       LET m == Len(a.ps.v)
           sh == CASE Len(a.ps.shape) >= 2 -> <<n>> \o a.ps.shape
                   [] Len(a.ps.shape) = 1 -> <<n, 1>> \o a.ps.shape
                   [] OTHER -> <<n, 1, 1>>
       IN CASE r.k # "nd" -> "result is not an ndarray"
            [] r.shape # sh -> "shape"
            [] \E p \in 1..Len(r.v) : ~HybridOk(op, a, ((p - 1) \div m) + 1, a.ps.v[((p - 1) % m) + 1], r.v[p]) -> "values"
            [] OTHER -> ""

---------------------------------------------------------------------------
(* interp_hybrid_to_pressure and interp_sigma_to_hybrid: column by column.   *)
(* Dimension, coordinate and name clauses of a result with ld -> nd          *)
Frame(d, r, ld, nd, n) ==
    LET ds == ReplacedAt(d.dims, Axis(d, ld), nd) IN
    CASE r.k # "da" -> "result is not a DataArray"
      [] r.dims # ds -> "dimensions"
      [] \E i \in 1..Len(ds) : r.shape[i] # (IF ds[i] = nd THEN n ELSE d.shape[i]) -> "sizes"
      [] \E i \in 1..Len(d.coords) : LET c == d.coords[i] IN
           ld \notin Elems(c.dims) /\ ~(HasCoord(r, c.n) /\ SameCoord(Coord(r, c.n), c)) -> "coordinates"
      [] OTHER -> ""
(* For all columns (o, i) of d along ld: Ok(X, labels, j, y)                 *)
Columns(d, r, ld, n, Ok(_, _, _, _)) ==
    LET ax == Axis(d, ld) inn == Inner(d.shape, ax) IN
    \A o \in 1..Outer(d.shape, ax), i \in 1..inn :
       LET X == Along(d, ax, o, i) Y == Along(r, ax, o, i)
           L == Labels(d, (o - 1) * d.shape[ax] * inn + i)
       IN \A j \in 1..n : Ok(X, L, j, Y[j])
PresColumn(a, L) == LET ps == AtDims(a.ps, L) IN
    TLCEval([k \in 1..Len(a.hya.v) |-> LevelPressure(a.hya.v[k], a.hyb.v[k], Scalar(a.p0), ps)])
(* the value expected below ground, within rel; phi etc. at the column       *)
BelowOk(a, P, X, L, q, y, rel) ==
    LET b == Bottom(P) ps == AtDims(a.ps, L) v == a.variable IN
    IF v = "other" THEN Within(X[b], y, RMul(rel, IF RIsNaN(X[b]) THEN 0 ELSE RAbs(X[b])))
    ELSE LET tb == AtDims(a.t_bot, L) phi == AtDims(a.phi_sfc, L)
             e == IF v = "temperature" THEN TempBelow(tb, q, P[b], ps, phi) ELSE GeoBelow(tb, q, P[b], ps, phi)
         IN Within(e, y, RMul(RMul(rel, 10), RMax(RAbs(e), IF v = "temperature" THEN 300 ELSE 1000)))
(* a level whose pressure involves no rounding but that of one product       *)
PureLevel(a, k) == /\ REq(a.hya.v[k], 0) \/ REq(a.hyb.v[k], 0)
                   /\ {a.ps.dtype, a.hya.dtype, a.hyb.dtype} = {"float64"}
NewLevels(a) == IF a.standard THEN MandatoryLevels ELSE a.new_levels.v
HybToPresOk(a, X, L, j, y) ==
    LET P == PresColumn(a, L) q == NewLevels(a)[j]
        rel == RelOf({a.data, a.ps, a.hya, a.hyb})
        ps == AtDims(a.ps, L)
    IN CASE RIsNaN(ps) -> RIsNaN(y)
         [] a.extrapolate /\ Near(q, P[Bottom(P)], rel) /\ ~(REq(q, P[Bottom(P)]) /\ PureLevel(a, Bottom(P))) ->
              InterpIs(P, X, q, a.method, y, rel) \/ BelowOk(a, P, X, L, q, y, rel)
         [] a.extrapolate /\ RLt(P[Bottom(P)], q) -> BelowOk(a, P, X, L, q, y, rel)
         [] OTHER -> InterpIs(P, X, q, a.method, y, rel)
LevelCoord(r, n, v, name) ==
    IF HasCoord(r, name) /\ Coord(r, name).shape = <<n>> /\ \A j \in 1..n : REq(Coord(r, name).v[j], v[j])
    THEN "" ELSE "the requested levels are not the coordinate"
JudgeHybToPres(a, r) ==
    LET n == Len(NewLevels(a)) IN
    Or(Frame(a.data, r, a.lev_dim, "plev", n),
    Or(LevelCoord(r, n, NewLevels(a), "plev"),
    Or(IF r.name = a.data.name THEN "" ELSE "name",
    Or(IF a.extrapolate \/ r.attrs = a.data.attrs THEN "" ELSE "attributes",
       IF Columns(a.data, r, a.lev_dim, n, LAMBDA X, L, j, y : HybToPresOk(a, X, L, j, y)) THEN "" ELSE "values"))))

SigToHybOk(a, X, L, j, y) ==
    LET q == Sigma(a.hya.v[j], a.hyb.v[j], Scalar(a.p0), AtDims(a.ps, L))
    IN InterpIs(a.sigma.v, X, q, a.method, y, RelOf({a.data, a.ps, a.hya, a.hyb, a.sigma}))
JudgeSigToHyb(a, r) ==
    LET n == Len(a.hya.v) IN
    Or(Frame([a.data EXCEPT !.coords = <<>>], r, a.lev_dim, "hlev", n),
    IF Columns(a.data, r, a.lev_dim, n, LAMBDA X, L, j, y : SigToHybOk(a, X, L, j, y)) THEN "" ELSE "values")

---------------------------------------------------------------------------
(* delta_pressure                                                            *)
TopOf(a) == IF ~a.has_top THEN MinOf(a.lev.v) ELSE Scalar(a.top)
ThickOk(a, sp, D) ==        \* D: the thicknesses returned for surface pressure sp
    LET P == a.lev.v n == Len(P) top == TopOf(a)
        rel == RelOf({a.lev, a.sp})
        (* the surface within rounding of a midpoint: either side             *)
        E == {TLCEval(ThicknessOf(P, s, top)) : s \in {sp} \union
               (IF \E j \in 1..(n - 1) : Near(Mid(P, j), sp, rel) /\ ~REq(Mid(P, j), sp)
                THEN {RMul(sp, RAdd(1, rel)), RMul(sp, RSub(1, rel))} ELSE {})}
        tol == RMul(RMul(10, rel), RMax(sp, RMaxAbs(P)))
    IN \E e \in E : \A j \in 1..n : Within(e[j], D[j], tol)
SumOk(a, sp, D) == Within(RSub(sp, TopOf(a)), RSum(Finites(D)), RMul(RMul(40, RelOf({a.lev, a.sp})), RMax(sp, RMaxAbs(a.lev.v))))
JudgeThick(a, r) ==
    LET n == Len(a.lev.v) m == Len(a.sp.v)
        D(i) == [j \in 1..n |-> r.v[(i - 1) * n + j]]
    IN CASE a.sp.k = "da" /\ r.k # "da" -> "result is not a DataArray"
         [] a.sp.k = "nd" /\ r.k # "nd" -> "result is not an ndarray"
         [] r.shape # a.sp.shape \o <<n>> -> "shape"
         [] a.sp.k = "da" /\ SubSeq(r.dims, 1, Len(r.dims) - 1) # a.sp.dims -> "dimensions"
         [] a.sp.k = "da" /\ (~HasCoord(r, r.dims[Len(r.dims)]) \/ Coord(r, r.dims[Len(r.dims)]).v # a.lev.v) -> "level coordinate"
         [] a.sp.k = "da" /\ \E i \in 1..Len(a.sp.coords) :
              ~(HasCoord(r, a.sp.coords[i].n) /\ SameCoord(Coord(r, a.sp.coords[i].n), a.sp.coords[i])) -> "coordinates"
         [] \E i \in 1..m : \E j \in 1..n : ~RIsNaN(D(i)[j]) /\ RLt(D(i)[j], 0) -> "negative thickness"
         [] \E i \in 1..m : ~SumOk(a, a.sp.v[i], D(i)) -> "thicknesses do not add up"
         [] \E i \in 1..m : ~ThickOk(a, a.sp.v[i], D(i)) -> "values"
         [] OTHER -> ""

---------------------------------------------------------------------------
(* zonal_meridional_psi: a.v and a.ps are the zonal means of the wind        *)
(* (time, plev, latitudes) and of the surface pressure (time, latitudes).    *)
PsiScale(phi) == RDiv(RMul(RMul(RMul(2, RPi), EarthRadius), RCos(phi)), Gravity)
PsiOk(a, r, Cosine(_)) ==
    LET P == a.plev.v n == Len(P) V0 == Transpose(a.v, <<"time", "plev", "latitudes">>)
        R0 == Transpose(r, <<"time", "plev", "latitudes">>)
        S0 == Transpose(a.ps, <<"time", "latitudes">>)
        nt == V0.shape[1] nl == V0.shape[3]
        lats == Coord(a.ps, "latitudes").v
    IN \A t \in 1..nt, l \in 1..nl :
         LET V == [k \in 1..n |-> At(V0, <<t, k, l>>)]
             S == StreamSum(P, V, At(S0, <<t, l>>))
             c == PsiScale(Cosine(lats[l]))
             tol == RMul(RMul("1e-9", RAbs(PsiScale(0))),
                         RMul(RMaxAbs([k \in 1..n |-> OrZero(V[k])]), At(S0, <<t, l>>)))
         IN \A k \in 1..n : Within(RMul(c, S[k]), At(R0, <<t, k, l>>), tol)
JudgePsi(a, r) ==
    CASE r.k # "da" -> "result is not a DataArray"
      [] ~SameDims(r, <<"time", "plev", "latitudes">>) -> "dimensions"
      [] ~HasCoord(r, "latitudes") \/ Coord(r, "latitudes").v # Coord(a.ps, "latitudes").v -> "latitudes"
      [] ~HasCoord(r, "plev") \/ Coord(r, "plev").v # a.plev.v -> "levels"
      [] ~UnitIs(r, "kg/s") -> "units"
      [] PsiOk(a, r, LAMBDA x : RDeg2Rad(x)) -> ""
      [] PsiOk(a, r, LAMBDA x : x) -> "KNOWN:psi-cos-degrees"
      [] OTHER -> "values"

---------------------------------------------------------------------------
(* V05: event k repeats event 1 with other chunks or another scheduler.      *)
SameResult(x, y) ==
    CASE x.k # y.k -> "type"
      [] x.k = "da" /\ x.dims # y.dims -> "dimensions differ"
      [] x.shape # y.shape -> "shape differs"
      [] x.k = "da" /\ (CoordNames(x) # CoordNames(y) \/ \E c \in CoordNames(x) : ~SameCoord(Coord(x, c), Coord(y, c))) -> "coordinates differ"
      [] x.k = "da" /\ x.name # y.name -> "name differs"
      [] ~SameValues(x.v, y.v, IF IsF32(x) \/ IsF32(y) THEN "1e-6" ELSE "1e-12") -> "values differ"
      [] OTHER -> ""

JudgeOp(e) ==
    LET a == e.args r == e.result IN
    CASE e.op \in {"pressure_at_hybrid_levels", "delta_pressure_hybrid"} -> JudgeHybrid(e.op, a, r)
      [] e.op = "interp_hybrid_to_pressure" -> JudgeHybToPres(a, r)
      [] e.op = "interp_sigma_to_hybrid" -> JudgeSigToHyb(a, r)
      [] e.op = "delta_pressure" -> JudgeThick(a, r)
      [] e.op = "zonal_meridional_psi" -> JudgePsi(a, r)
JudgeV(s, k) ==
    LET e == s.events[k] x == e.args.expect IN
    CASE x # "ok" ->
           (CASE e.outcome = "ok" -> "accepted, expected " \o x
              [] x = "Error" \/ e.error = x -> ""
              [] OTHER -> "raised " \o e.error \o " instead of " \o x)
      [] e.outcome # "ok" -> "raised " \o e.error
      [] Prop = "V05" /\ k > 1 -> Or(SameResult(s.events[1].result, e.result), "")
      [] OTHER -> JudgeOp(e)
=============================================================================

--------------------------- MODULE T_MultiInterp ---------------------------
(***************************************************************************)
(* Judges recorded calls of interp_multidim (V07).  a.data carries its     *)
(* last two dimensions as latitude and longitude, with coordinates a.lat,  *)
(* a.lon; a.has_missing and a.missing give missing_val.                    *)
(***************************************************************************)
EXTENDS MultiInterp, Trace

Or(x, y) == IF x # "" THEN x ELSE y
Datum(a, d, base, nlon, i, j) ==      \* value at grid point (i, j) of one field; missing_val is missing
    LET v == d.v[base + (i - 1) * nlon + j] IN
    IF a.has_missing /\ ~RIsNaN(v) /\ REq(v, a.missing.v[1]) THEN RNaN ELSE v
OutValue(a) == IF a.fill = "value" THEN a.fillv.v[1] ELSE RNaN
(* y as the caller sees it: missing_val stands for missing                   *)
Seen(a, y) == IF a.has_missing /\ ~RIsNaN(y) /\ REq(y, a.missing.v[1]) THEN RNaN ELSE y
Rel(a) == IF IsF32(a.data) \/ IsF32(a.lat) \/ IsF32(a.lon) THEN "2e-5" ELSE "1e-9"
Snap(P, q) == \* q, or the grid coordinate from which it differs by rounding only
    LET S == {k \in 1..Len(P) : RLe(RAbs(RSub(P[k], q)), "1e-9")} IN IF S = {} THEN q ELSE P[CHOOSE k \in S : TRUE]
PointOk(a, F(_, _), X, Y, qlat, qlon, y) ==
    LET extrap == a.fill = "extrapolate"
        qx == Snap(X.p, qlon) qy == Snap(Y.p, qlat)
        bx == Bracket(X.p, qx, extrap) by == Bracket(Y.p, qy, extrap)
        inside == Bracket(X.p, qx, FALSE).out = FALSE /\ Bracket(Y.p, qy, FALSE).out = FALSE
        moved == ~REq(qx, qlon) \/ ~REq(qy, qlat)
    IN IF ~inside /\ ~extrap THEN Within(Seen(a, OutValue(a)), y, "1e-6")
       ELSE IF a.method = "nearest" THEN
            \E i \in Nearest(Y.p, qy, Rel(a)), j \in Nearest(X.p, qx, Rel(a)) :
               LET v == F(Y.i[i], X.i[j]) IN Within(v, y, RMul(Rel(a), IF RIsNaN(v) THEN 0 ELSE RAbs(v)))
       ELSE LET rows == {by.a, by.b} cols == {bx.a, bx.b}
                at(c) == F(Y.i[c[1]], X.i[c[2]])
                corners == rows \X cols
                near == (UNION {Around(Y.p, k) : k \in rows}) \X (UNION {Around(X.p, k) : k \in cols})
                w(b) == RMax(1, RAbs(b.w))
                q == SetToSeqAny(near)
                sc == RMaxAbs([c \in 1..Len(q) |-> IF RIsNaN(at(q[c])) THEN 0 ELSE at(q[c])])
                tol == RMul(RMul(Rel(a), RMul(4, sc)), RMul(w(bx), w(by)))
            IN IF RIsNaN(y) THEN \/ \E c \in near : RIsNaN(at(c))       \* (a zero weight may not save a missing corner)
                                 \/ moved /\ ~extrap
               ELSE /\ ~\E c \in corners : RIsNaN(at(c))
                    /\ Within(Bilinear(F, by, Y.i, bx, X.i), y, tol)
JudgeMulti(s, k) ==
    LET e == s.events[k] a == e.args r == e.result x == a.expect IN
    CASE x # "ok" ->
           (CASE e.outcome = "ok" -> "accepted, expected " \o x
              [] x = "Error" \/ e.error = x -> ""
              [] OTHER -> "raised " \o e.error \o " instead of " \o x)
      [] e.outcome # "ok" -> "raised " \o e.error
      [] OTHER ->
    LET d == a.data n == Len(d.shape) nlat == d.shape[n - 1] nlon == d.shape[n]
        dn == IF d.k = "da" THEN d.dims ELSE <<"lat", "lon">>
        mlat == Len(a.lat_out.v) mlon == Len(a.lon_out.v)
        X == TLCEval(AxisPts(a.lon.v, a.cyclic)) Y == TLCEval(AxisPts(a.lat.v, FALSE))
        lead == SubSeq(d.shape, 1, n - 2)
    IN CASE r.k # "da" /\ d.k = "da" -> "result is not a DataArray"
         [] r.shape # lead \o <<mlat, mlon>> -> "shape"
         [] r.k = "da" /\ r.dims # dn -> "dimensions"
         [] r.k = "da" /\ (~HasCoord(r, dn[n]) \/ ~HasCoord(r, dn[n - 1])) -> "coordinates"
         [] r.k = "da" /\ (~SameValues(Coord(r, dn[n]).v, a.lon_out.v, "1e-12") \/ ~SameValues(Coord(r, dn[n - 1]).v, a.lat_out.v, "1e-12")) -> "coordinate values"
         [] d.k = "da" /\ \E i \in 1..(n - 2) : HasCoord(d, dn[i]) /\ ~(HasCoord(r, dn[i]) /\ SameValues(Coord(r, dn[i]).v, Coord(d, dn[i]).v, 0)) -> "coordinates of other dimensions"
         [] \E f \in 0..(Prod(lead) - 1), i \in 1..mlat, j \in 1..mlon :
              LET y == r.v[(f * mlat + i - 1) * mlon + j]       \* a value may equal missing_val by itself
                  ok(z) == PointOk(a, LAMBDA p, q : Datum(a, d, f * nlat * nlon, nlon, p, q), X, Y, a.lat_out.v[i], a.lon_out.v[j], z)
              IN ~ok(y) /\ ~ok(Seen(a, y)) -> "values"
         [] a.has_missing /\ \E p \in 1..Len(r.v) : RIsNaN(r.v[p]) -> "missing value not restored"
         [] OTHER -> ""
=============================================================================

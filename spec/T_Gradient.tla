---------------------------- MODULE T_Gradient -----------------------------
(***************************************************************************)
(* Judges recorded calls of gradient (G01).  a.lat, a.lon: the 1-D         *)
(* coordinates of the grid; a.latdim, a.londim: where they lie in the data *)
(* (axis numbers); the result has x, along parallels, and y, along meridians.          *)
(***************************************************************************)
EXTENDS Gradient, Trace
Mesh(a, what) == LET m == Len(a.lat.v) n == Len(a.lon.v) IN
    [p \in 1..(m * n) |-> IF what = "lat" THEN a.lat.v[((p - 1) \div n) + 1] ELSE a.lon.v[((p - 1) % n) + 1]]
JudgeG(s, k) ==
    LET e == s.events[k] a == e.args IN
    CASE a.expect # "ok" -> (IF e.outcome = "ok" THEN "accepted" ELSE IF a.expect # "Error" /\ e.error # a.expect THEN "raised " \o e.error ELSE "")
      [] e.outcome # "ok" -> "raised " \o e.error
      [] OTHER ->
    LET d == a.data nd == Len(d.shape) m == Len(a.lat.v) n == Len(a.lon.v)
        rest == SetToSeqInt((1..nd) \ {a.latdim, a.londim})
        order == rest \o <<a.latdim, a.londim>>
        shape == [i \in 1..nd |-> d.shape[order[i]]]
        st == Strides(d.shape)
        leads == Prod(SubSeq(shape, 1, nd - 2))
        base == TLCEval([o \in 1..leads |-> LET ix == IdxPos(SubSeq(shape, 1, nd - 2), o) IN
                     1 + LET A[i \in 0..(nd - 2)] == IF i = 0 THEN 0 ELSE A[i - 1] + (ix[i] - 1) * st[rest[i]] IN A[nd - 2]])
        val(o, i, j) == d.v[base[o] + (i - 1) * st[a.latdim] + (j - 1) * st[a.londim]]
        rel == Eps(d)
        Dlat == TLCEval(Spans(a.lat.v, ArcLat))
        Dlon == TLCEval([i \in 1..m |-> Spans(a.lon.v, LAMBDA x, y : ArcLon(x, y, a.lat.v[i]))])
        ok(r, o, i, j, f, D, q) ==
            LET z == Slopes(f, D)[q] t == RDiv(RMul(rel, RMaxAbs(f)), RAbs(D[q])) IN Within(z, r.v[((o - 1) * m + i - 1) * n + j], t)
    IN IF ~e.result.two THEN "not two results"
       ELSE LET gx == e.result.x gy == e.result.y IN
       CASE gx.k # d.k \/ gy.k # d.k -> "container"
         [] gx.shape # shape \/ gy.shape # shape -> "shape"
         [] d.k = "da" /\ \E r \in {1, 2} : LET g == IF r = 1 THEN gx ELSE gy IN
               \/ g.dims # [i \in 1..(nd - 2) |-> d.dims[order[i]]] \o <<"x", "y">>
               \/ ~HasCoord(g, "lat") \/ ~HasCoord(g, "lon") -> "dimensions or coordinates"
         [] d.k = "da" /\ \E r \in {1, 2} : LET g == IF r = 1 THEN gx ELSE gy IN
               ~SameValues(Coord(g, "lat").v, Mesh(a, "lat"), "1e-12") \/ ~SameValues(Coord(g, "lon").v, Mesh(a, "lon"), "1e-12") -> "coordinate values"
         [] \E o \in 1..leads, i \in 1..m, j \in 1..n :
               LET row == [q \in 1..n |-> val(o, i, q)] IN ~ok(gx, o, i, j, row, Dlon[i], j) -> "gradient along longitude"
         [] \E o \in 1..leads, i \in 1..m, j \in 1..n :
               LET col == [q \in 1..m |-> val(o, q, j)] IN ~ok(gy, o, i, j, col, Dlat, i) -> "gradient along latitude"
         [] OTHER -> ""
=============================================================================

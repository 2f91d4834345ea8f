------------------------------ MODULE T_Stats ------------------------------
(***************************************************************************)
(* Judges recorded calls of eofunc_eofs (E01), eofunc_pcs (E02, after a    *)
(* call of eofunc_eofs on the same data in the same session), pearson_r    *)
(* (P01) and nmse (P02).                                                   *)
(***************************************************************************)
EXTENDS Stats, Trace
Names(s) == {s[i].n : i \in 1..Len(s)}
Tab(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

(* --- EOFs ---------------------------------------------------------------- *)
TimeAxis(a) == IF a.data.k = "da" THEN 1 ELSE IF a.time_dim < 0 THEN Len(a.data.shape) + a.time_dim + 1 ELSE a.time_dim + 1
BadAxis(a) == a.data.k # "da" /\ (a.time_dim >= Len(a.data.shape) \/ a.time_dim < -Len(a.data.shape))
Columns(a) ==       \* the weighted series of every point, in row-major order
    LET d == a.data ax == TimeAxis(a) inn == Inner(d.shape, ax)
    IN Tab(Prod(WithoutAt(d.shape, ax)), LAMBDA q :
         LET s == Along(d, ax, ((q - 1) \div inn) + 1, ((q - 1) % inn) + 1)
         IN IF a.has_w THEN Tab(Len(s), LAMBDA t : RMul(s[t], a.weights.v[((q - 1) % Len(a.weights.v)) + 1])) ELSE s)
Present(cols) == SelectSeq([q \in 1..Len(cols) |-> q], LAMBDA q : \A t \in 1..Len(cols[q]) : ~RIsNaN(cols[q][t]))
Samples(a, cols, pres) ==
    LET N == Len(cols[1]) X == Tab(N, LAMBDA t : Tab(Len(pres), LAMBDA j : cols[pres[j]][t]))
    IN IF a.center THEN Centred(X) ELSE X
SpaceDims(a) ==
    IF a.meta /\ a.data.k = "da" THEN SubSeq(a.data.dims, 2, Len(a.data.dims))
    ELSE WithoutAt([i \in 1..Len(a.data.shape) |-> <<"dim_0", "dim_1", "dim_2", "dim_3">>[i]], TimeAxis(a))
KeptCoords(a) == IF a.meta /\ a.data.k = "da"
                 THEN SelectSeq(a.data.coords, LAMBDA c : PosOf(c.dims, a.data.dims[1]) = 0) ELSE <<>>
Rel(a) == IF IsF32(a.data) THEN "1e-4" ELSE "1e-8"
Factor(scaling, l) == CASE scaling = 0 -> 1 [] scaling = 1 -> RDiv(1, RSqrt(l)) [] scaling = 2 -> RSqrt(l)
\* the variance of the rounding of the data; where it is not small against the variance itself there are no modes to speak of
Rounding(a, cols, pres) == RMul(IF IsF32(a.data) THEN "1e-12" ELSE "1e-29",
    RSum([j \in 1..Len(pres) |-> RDiv(RDot(cols[pres[j]], cols[pres[j]]), Len(cols[1]))]))
Rough(noise, tr, eps) == RLe(RMul(eps, RMul(eps, tr)), noise)
Numbers(x) == \A i \in 1..Len(x) : RIsFinite(x[i])
JudgeEofs(a, r) ==
    LET cols == Columns(a) p == Len(cols) pres == Present(cols) N == Len(cols[1]) K == a.neofs
        X == Samples(a, cols, pres) C == Covariance(X, a.ddof) tr == Trace(C) eps == Rel(a)
        lam == Attr(r, "eigenvalues").x noise == Rounding(a, cols, pres)
        used == IF a.eofscaling = 0 THEN K ELSE Cardinality({k \in 1..K : RLt(RMul("1e-5", tr), lam[k])})
        E == Tab(used, LAMBDA k : Tab(Len(pres), LAMBDA j : RDiv(r.v[(k - 1) * p + pres[j]], Factor(a.eofscaling, lam[k]))))
        north == Attr(r, "northTest").x frac == Attr(r, "varianceFraction").x
    IN CASE r.k # "da" -> "container"
         [] r.shape # <<K>> \o WithoutAt(a.data.shape, TimeAxis(a)) -> "shape"
         [] r.dims # <<"eof">> \o SpaceDims(a) -> "dimensions"
         [] Names(r.coords) # Names(KeptCoords(a)) \/ \E i \in 1..Len(KeptCoords(a)) :
               ~SameCoord(KeptCoords(a)[i], Coord(r, KeptCoords(a)[i].n)) -> "coordinates"
         [] Names(r.attrs) # {"eigenvalues", "northTest", "totalAnomalyVariance", "varianceFraction"}
                             \cup (IF a.meta /\ a.data.k = "da" THEN Names(a.data.attrs) ELSE {}) -> "attributes"
         [] a.meta /\ a.data.k = "da" /\ \E i \in 1..Len(a.data.attrs) :
               Attr(r, a.data.attrs[i].n).s # a.data.attrs[i].s -> "input attributes"
         [] \E k \in 1..used, q \in 1..p : RIsNaN(r.v[(k - 1) * p + q]) # (PosOf(pres, q) = 0) -> "missing points"
         [] Len(lam) # K \/ Len(north) # K \/ Len(frac) # K -> "number of eigenvalues"
         [] ~Numbers(lam) -> "eigenvalues"
         [] ~Within(Attr(r, "totalAnomalyVariance").x[1], tr, RAdd(RMul(eps, tr), RAdd(noise, RSqrt(RMul(noise, tr))))) -> "total variance"
         [] Rough(noise, tr, eps) -> ""
         [] ~Orthonormal(E, eps) -> "not orthonormal"
         [] used > 0 /\ ~Leading(C, SubSeq(lam, 1, used), E, eps) -> "not the leading eigenvectors"
         [] \E k \in 1..K : ~Within(frac[k], RDiv(lam[k], tr), eps) -> "variance fraction"
         [] \E k \in 1..K : ~Within(north[k], RDiv(RMul(lam[k], RSqrt(RDiv(2, N))), IF a.vfscaled THEN tr ELSE 1),
                                    RMul(eps, IF a.vfscaled THEN 1 ELSE tr)) -> "northTest"
         [] OTHER -> ""
JudgePcs(a, r, ae, re) ==
    LET cols == Columns(a) p == Len(cols) pres == Present(cols) N == Len(cols[1]) K == a.npcs
        X == Samples(a, cols, pres) tr == Trace(Covariance(X, a.ddof)) eps == Rel(a)
        lam == Attr(re, "eigenvalues").x
        ok == Cardinality({k \in 1..K : RLt(RMul("1e-5", tr), lam[k])})
        E == Tab(ae.neofs, LAMBDA k : Tab(Len(pres), LAMBDA j : re.v[(k - 1) * p + pres[j]]))
        P == Tab(IF a.pcscaling = 0 THEN K ELSE ok, LAMBDA k : Tab(N, LAMBDA t : RDiv(r.v[(k - 1) * N + t], Factor(a.pcscaling, lam[k]))))
        size == RMul(eps, RSqrt(RMul(tr, N)))
        apart(k) == /\ k < ae.neofs /\ RLt(RMul("1e-4", tr), RSub(lam[k], lam[k + 1]))
                    /\ (k > 1 => RLt(RMul("1e-4", tr), RSub(lam[k - 1], lam[k])))
    IN CASE r.k # "da" -> "container"
         [] r.shape # <<K, N>> -> "shape"
         [] r.dims # <<"pc", "time">> -> "dimensions"
         [] a.meta /\ a.data.k = "da" /\ HasCoord(a.data, "time") /\ (~HasCoord(r, "time") \/ Coord(r, "time").v # Coord(a.data, "time").v) -> "time coordinate"
         [] ~a.meta /\ Len(r.coords) # 0 -> "coordinates"
         [] Names(r.attrs) # (IF a.meta /\ a.data.k = "da" THEN Names(a.data.attrs) ELSE {}) -> "attributes"
         [] \E k \in 1..Len(P) : ~Numbers(P[k]) -> "missing"
         [] Rough(Rounding(a, cols, pres), tr, eps) -> ""
         [] \E k \in 1..Len(P) : ~Within(RDiv(RDot(P[k], P[k]), N - a.ddof), lam[k], RMul(eps, tr)) -> "variance is not the eigenvalue"
         [] \E k \in 1..Len(P) : \E i \in 1..(k - 1) : ~Within(RDot(P[k], P[i]), 0, RMul(eps, RMul(tr, N))) -> "correlated components"
         [] \E k \in 1..Len(P) : apart(k) /\ \E t \in 1..N : ~Within(RDot(X[t], E[k]), P[k][t], RMul(100, size)) -> "not the projection"
         [] /\ Len(P) = ae.neofs /\ K = ae.neofs /\ (K = N \/ K = Len(pres))
            /\ \E t \in 1..N, j \in 1..Len(pres) :
                 ~Within(RSum([k \in 1..K |-> RMul(P[k][t], E[k][j])]), X[t][j], RMul(100, size)) -> "the data are not reconstructed"
         [] OTHER -> ""

(* --- correlation ------------------------------------------------------------ *)
SumSq(a, w) == RSum([i \in 1..Len(a) |-> RMul(w[i], RMul(a[i], a[i]))])
Cond(a, w) == RDiv(SumSq(a, w), WCov(a, a, w))      \* loss of accuracy by centring
Steady(a, w, f32) == LET c == WCov(a, a, w) IN RLe(c, RMul(IF f32 THEN "1e-3" ELSE "1e-9", SumSq(a, w)))
PearsonOk(a, b, w, skipna, f32, z) ==
    LET ix == Valid(a, b) x == Choose(a, ix) y == Choose(b, ix) u == Choose(w, ix)
    IN IF Len(ix) < Len(a) /\ ~skipna THEN RIsNaN(z)
       ELSE IF Len(ix) < 2 THEN TRUE
       ELSE IF ~RLt(0, RSum(u)) THEN TRUE
       ELSE IF Steady(x, u, f32) \/ Steady(y, u, f32) THEN TRUE
       ELSE /\ Within(Pearson(x, y, u), z, RMul(IF f32 THEN "1e-5" ELSE "1e-10", RMax(Cond(x, u), Cond(y, u))))
            /\ RLe(RAbs(z), "1.00001")
F32(a, b) == IsF32(a) \/ IsF32(b)
JudgePearsonDa(a, b, g, r0) ==
    LET red == IF g.has_dim THEN g.dims ELSE a.dims
        rest == SelectSeq(a.dims, LAMBDA d : PosOf(red, d) = 0)
        order == rest \o red
        x == Transpose(a, order) y == Transpose(b, order)
        w == IF g.has_w THEN Transpose(g.weights, red).v ELSE <<>>
        n == Prod(SubSeq(x.shape, Len(rest) + 1, Len(order)))
        shape == SubSeq(x.shape, 1, Len(rest))
        r == IF r0.k = "da" /\ g.a.k = "ds" /\ SameDims(r0, rest) THEN Transpose(r0, rest) ELSE r0    \* a Dataset has no order of dimensions
        ww == IF g.has_w THEN w ELSE Ones(n)
    IN CASE r.k # "da" -> "container"
         [] r.dims # rest \/ r.shape # shape -> "dimensions"
         [] \E i \in 1..Len(a.coords) : LET c == a.coords[i] IN
               /\ \A j \in 1..Len(c.dims) : PosOf(red, c.dims[j]) = 0
               /\ ~(HasCoord(r, c.n) /\ Coord(r, c.n).v = c.v) -> "coordinates"
         [] Names(r.attrs) # (IF g.keep_attrs THEN Names(a.attrs) ELSE {}) -> "attributes"
         [] \E o \in 1..Prod(shape) :
               ~PearsonOk(SubSeq(x.v, (o - 1) * n + 1, o * n), SubSeq(y.v, (o - 1) * n + 1, o * n), ww, g.skipna, F32(a, b), r.v[o]) -> "correlation"
         [] OTHER -> ""
JudgePearsonNd(a, b, g, r) ==
    LET all == ~g.has_axis
        ax == IF g.axis < 0 THEN Len(a.shape) + g.axis + 1 ELSE g.axis + 1
        inn == IF all THEN 1 ELSE Inner(a.shape, ax)
        shape == IF all THEN <<>> ELSE WithoutAt(a.shape, ax)
        line(s, o) == IF all THEN s.v ELSE Along(s, ax, ((o - 1) \div inn) + 1, ((o - 1) % inn) + 1)
    IN CASE r.k \notin {"nd", "num"} -> "container"
         [] r.shape # shape -> "shape"
         [] \E o \in 1..Prod(shape) : LET x == line(a, o) y == line(b, o) IN
               ~PearsonOk(x, y, IF g.has_w THEN line(g.weights, o) ELSE Ones(Len(x)), g.skipna, F32(a, b), r.v[o]) -> "correlation"
         [] OTHER -> ""
JudgePearson(g, r) ==
    CASE g.a.k = "ds" ->
           (IF r.k # "ds" \/ Elems(r.names) # Elems(g.a.names) THEN "variables"
            ELSE LET bad == {i \in 1..Len(g.a.names) :
                       JudgePearsonDa(g.a.vars[i], g.b.vars[PosOf(g.b.names, g.a.names[i])], g, r.vars[PosOf(r.names, g.a.names[i])]) # ""} IN
            IF bad = {} THEN "" ELSE "variable of the Dataset")
      [] g.a.k = "da" -> JudgePearsonDa(g.a, g.b, g, r)
      [] OTHER -> JudgePearsonNd(g.a, g.b, g, r)

(* --- normalised mean square error ----------------------------------------- *)
JudgeNmseDa(o, m, lat, lon, r) ==
    LET la == Coord(o, lat) lo == Coord(o, lon)
        rest == SelectSeq(o.dims, LAMBDA d : PosOf(la.dims, d) = 0 /\ PosOf(lo.dims, d) = 0)
        red == SelectSeq(o.dims, LAMBDA d : PosOf(rest, d) = 0)
        order == rest \o red
        x == Transpose(o, order) y == Transpose(m, order)
        n == Prod(SubSeq(x.shape, Len(rest) + 1, Len(order)))
        shape == SubSeq(x.shape, 1, Len(rest))
        redshape == SubSeq(x.shape, Len(rest) + 1, Len(order))
        w == Tab(n, LAMBDA q : LET ix == IdxPos(redshape, q) IN RCos(RDeg2Rad(
                AtDims(la, [d \in Elems(red) |-> ix[PosOf(red, d)]]))))
        rr == IF SameDims(r, rest) THEN Transpose(r, rest) ELSE r
        f32 == F32(o, m)
        (* next to a pole the cosine of the rounded latitude is itself rounded *)
        round(ww) == RMax(1, RDiv("1e-5", RMaxAbs(ww)))
        ok(k) == LET u == SubSeq(x.v, (k - 1) * n + 1, k * n) v2 == SubSeq(y.v, (k - 1) * n + 1, k * n) ix == Valid(u, v2)
                     a == Choose(u, ix) b == Choose(v2, ix) ww == Choose(w, ix) IN
                 IF Len(ix) < 2 THEN TRUE
                 ELSE IF RLe(RSum(ww), "1e-12") THEN TRUE
                 ELSE IF Steady(a, ww, f32) THEN TRUE
                 ELSE LET z == Nmse(a, b, ww) big == RMax(RMaxAbs(a), RMaxAbs(b)) IN Within(z, rr.v[k], RMul(IF f32 THEN "1e-5" ELSE "1e-10", RMul(RMul(round(ww), RMax(1, RMul(z, 4))),
                             RMax(RMax(Cond(a, ww), 1), RDiv(RMul("1e-5", RMul(big, big)), WCov(a, a, ww))))))    \* cos(90 degrees) is not quite 0
    IN CASE r.k # "da" -> "container"
         [] ~SameDims(r, rest) -> "dimensions"
         [] rr.shape # shape -> "shape"
         [] \E i \in 1..Len(rest) : HasCoord(o, rest[i]) /\ ~(HasCoord(r, rest[i]) /\ Coord(r, rest[i]).v = Coord(o, rest[i]).v) -> "coordinates"
         [] \E k \in 1..Prod(shape) : ~ok(k) -> "values"
         [] OTHER -> ""
JudgeNmse(g, r) ==
    IF g.obs.k = "ds"
    THEN IF r.k # "ds" \/ Elems(r.names) # Elems(g.obs.names) THEN "variables"
         ELSE IF \E i \in 1..Len(g.obs.names) : JudgeNmseDa(g.obs.vars[i], g.mod.vars[PosOf(g.mod.names, g.obs.names[i])], g.lat, g.lon,
                                                            r.vars[PosOf(r.names, g.obs.names[i])]) # "" THEN "variable of the Dataset"
         ELSE ""
    ELSE JudgeNmseDa(g.obs, g.mod, g.lat, g.lon, r)

Judge1(s, k) ==
    LET e == s.events[k] a == e.args r == e.result IN
    CASE a.expect # "ok" -> (IF e.outcome = "ok" THEN "accepted" ELSE IF e.error # a.expect THEN "raised " \o e.error ELSE "")
      [] e.outcome # "ok" -> "raised " \o e.error
      [] e.op = "eofunc_eofs" /\ Prop = "E02" -> ""           \* judged under E01
      [] e.op = "eofunc_eofs" -> JudgeEofs(a, r)
      [] e.op = "eofunc_pcs" -> JudgePcs(a, r, s.events[k - 1].args, s.events[k - 1].result)
      [] e.op = "pearson_r" -> JudgePearson(a, r)
      [] e.op = "nmse" -> JudgeNmse(a, r)
=============================================================================

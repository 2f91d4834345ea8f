---------------------------- MODULE T_Spherical ----------------------------
(***************************************************************************)
(* Judges recorded calls of decomposition, recomposition (S01) and         *)
(* scale_voronoi (S02).                                                    *)
(***************************************************************************)
EXTENDS Spherical, Trace
Same(a, r) == r.k = a.k /\ (a.k = "da" => r.dims = a.dims)
Tab(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
MaxY(Y) == RMaxAbs([p \in 1..Len(Y) |-> RMaxAbs([i \in 1..Len(Y[p]) |-> RMax(RAbs(Y[p][i].re), RAbs(Y[p][i].im))])])
JudgeDecompose(a, r) ==
    LET N == a.max_harm P == Len(a.data.v) f == a.data.v w == a.scale.v
        Y == Tab(P, LAMBDA p : Harmonics(N, a.theta.v[p], a.phi.v[p]))
        size == RSum(Tab(P, LAMBDA p : RAbs(RMul(f[p], w[p]))))
        tol == RMul(IF IsF32(a.data) THEN "2e-5" ELSE "1e-9", RMul(size, RMul(RMul(8, RPi), RDiv(MaxY(Y), RAbs(RSum(w))))))
    IN CASE r.k # a.data.k -> "container"
         [] r.shape # <<Count(N)>> -> "number of coefficients"
         [] r.k = "da" /\ r.dims # <<"harmonic">> -> "dimensions"
         [] \E i \in 1..Count(N) : LET c == Decompose(f, w, Y, i) IN
               ~(Within(c.re, r.v[i][1], tol) /\ Within(c.im, r.v[i][2], tol)) -> "coefficients"
         [] OTHER -> ""
JudgeRecompose(a, r) ==
    LET N == a.max_harm P == Len(a.theta.v) n == Count(N)
        c == Tab(n, LAMBDA i : [re |-> a.data.v[i][1], im |-> a.data.v[i][2]])
        Y == Tab(P, LAMBDA p : Harmonics(N, a.theta.v[p], a.phi.v[p]))
        size == RSum(Tab(n, LAMBDA i : RAdd(RAbs(c[i].re), RAbs(c[i].im))))
        tol == RMul("1e-9", RMul(size, MaxY(Y)))
    IN CASE r.k # a.data.k -> "container"
         [] r.shape # a.theta.shape -> "shape"
         [] r.k = "da" /\ r.dims # a.theta.dims -> "dimensions"
         [] \E p \in 1..P : ~Within(Recompose(c, Y[p]), r.v[p], tol) -> "values"
         [] OTHER -> ""
JudgeVoronoi(a, r) ==
    LET P == Len(a.theta.v) W == Tab(P, LAMBDA p : Vec(a.theta.v[p], a.phi.v[p]))
    IN CASE r.k # a.theta.k -> "container"
         [] r.shape # a.theta.shape -> "shape"
         [] r.k = "da" /\ r.dims # a.theta.dims -> "dimensions"
         [] ~Within(RSum(r.v), RMul(4, RPi), "1e-8") -> "areas do not add up to the sphere"
         [] \E p \in 1..P : RLt(r.v[p], 0) -> "negative area"
         [] Surrounds(W) /\ \E p \in 1..P : ~Within(Cell(W, p), r.v[p], "1e-8") -> "area of a cell"
         [] OTHER -> ""
JudgeS(s, k) ==
    LET e == s.events[k] a == e.args r == e.result IN
    IF e.outcome # "ok" THEN "raised " \o e.error
    ELSE CASE e.op = "decomposition" -> JudgeDecompose(a, r)
           [] e.op = "recomposition" -> JudgeRecompose(a, r)
           [] e.op = "scale_voronoi" -> JudgeVoronoi(a, r)
=============================================================================

------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Weighted statistics of finite samples, and empirical orthogonal         *)
(* functions of a data matrix.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, Arrays, TLC

Ones(n) == [i \in 1..n |-> 1]
WMean(a, w) == RDiv(RDot(a, w), RSum(w))
Off(a, m) == TLCEval([i \in 1..Len(a) |-> RSub(a[i], m)])
(* weighted sum of products of deviations                                    *)
WCov(a, b, w) ==
    LET x == Off(a, WMean(a, w)) y == Off(b, WMean(b, w)) IN RSum([i \in 1..Len(a) |-> RMul(w[i], RMul(x[i], y[i]))])
Pearson(a, b, w) == RDiv(WCov(a, b, w), RSqrt(RMul(WCov(a, a, w), WCov(b, b, w))))
Valid(a, b) == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : ~RIsNaN(a[i]) /\ ~RIsNaN(b[i]))
Choose(s, ix) == TLCEval([k \in 1..Len(ix) |-> s[ix[k]]])
(* o: observed, m: modeled, w: weights, of the points present in both.       *)
Nmse(o, m, w) ==
    LET d == [i \in 1..Len(o) |-> LET e == RSub(m[i], o[i]) IN RMul(e, e)]
    IN RDiv(WMean(d, w), RDiv(WCov(o, o, w), RSum(w)))

(* --- EOFs.  X: sequence of N samples, each a sequence of p values. ------- *)
ColMean(X, j) == RDiv(RSum([t \in 1..Len(X) |-> X[t][j]]), Len(X))
Centred(X) == LET p == Len(X[1]) m == TLCEval([j \in 1..p |-> ColMean(X, j)])
              IN TLCEval([t \in 1..Len(X) |-> TLCEval([j \in 1..p |-> RSub(X[t][j], m[j])])])
Covariance(X, ddof) ==
    LET p == Len(X[1]) col == TLCEval([j \in 1..p |-> TLCEval([t \in 1..Len(X) |-> X[t][j]])])
    IN TLCEval([i \in 1..p |-> TLCEval([j \in 1..p |-> RDiv(RDot(col[i], col[j]), Len(X) - ddof)])])
Trace(C) == RSum([i \in 1..Len(C) |-> C[i][i]])
Apply(C, e) == TLCEval([i \in 1..Len(C) |-> RDot(C[i], e)])
Deflate(C, l, e) == TLCEval([i \in 1..Len(C) |-> TLCEval([j \in 1..Len(C) |-> RSub(C[i][j], RMul(l, RMul(e[i], e[j])))])])
(* Whether the symmetric matrix C is positive definite (elimination).        *)
RECURSIVE Positive(_)
Positive(C) ==
    LET n == Len(C) d == C[1][1] IN
    IF ~RLt(0, d) THEN FALSE
    ELSE IF n = 1 THEN TRUE
    ELSE Positive(TLCEval([i \in 1..(n - 1) |-> TLCEval([j \in 1..(n - 1) |-> RSub(C[i + 1][j + 1], RDiv(RMul(C[i + 1][1], C[1][j + 1]), d))])]))
(* No eigenvalue of C is larger than l + eps.                                *)
Bounded(C, l, eps) ==
    Positive(TLCEval([i \in 1..Len(C) |-> TLCEval([j \in 1..Len(C) |-> RSub(IF i = j THEN RAdd(l, eps) ELSE 0, C[i][j])])]))
RECURSIVE DeflateAll(_, _, _)
DeflateAll(C, L, E) == IF L = <<>> THEN C ELSE DeflateAll(Deflate(C, Head(L), Head(E)), Tail(L), Tail(E))
(* L, E: leading eigenvalues and orthonormal eigenvectors of C.              *)
Orthonormal(E, eps) == \A i \in 1..Len(E) : \A j \in 1..i : Within(RDot(E[i], E[j]), IF i = j THEN 1 ELSE 0, eps)
Leading(C, L, E, eps) ==
    LET tr == RMax(Trace(C), "1e-300") tol == RMul(eps, tr) IN
    /\ \A k \in 1..Len(L) : LET y == Apply(C, E[k]) IN \A i \in 1..Len(C) : Within(y[i], RMul(L[k], E[k][i]), tol)
    /\ \A k \in 2..Len(L) : RLe(L[k], RAdd(L[k - 1], tol))
    /\ Bounded(DeflateAll(C, L, E), L[Len(L)], tol)
=============================================================================

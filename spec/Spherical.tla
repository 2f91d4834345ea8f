----------------------------- MODULE Spherical ------------------------------
(***************************************************************************)
(* Spherical harmonics and Voronoi cells on the unit sphere.  theta is the *)
(* longitude, phi the angle from the north pole, both in radians.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, Arrays, TLC

(* --- harmonics ---------------------------------------------------------- *)
Count(N) == ((N + 1) * (N + 2)) \div 2
Index(n, m) == (n * (n + 1)) \div 2 + m + 1          \* position of (n, m): n outer, m = 0..n inner
Degree(i) == CHOOSE n \in 0..i : Index(n, 0) <= i /\ i <= Index(n, n)
Order(i) == i - Index(Degree(i), 0)
Mul(m) == IF m = 0 THEN 1 ELSE 2
(* Legendre functions with the Condon-Shortley phase, normalised:            *)
(*   Q[n, m] = sqrt((2n+1)/(4 pi) (n-m)!/(n+m)!) P_n^m(cos phi)              *)
RECURSIVE Diagonal(_, _, _), Column(_, _, _, _)
Diagonal(N, s, q) ==    \* q = <<Q[0,0], ...>>, up to Q[N,N]
    LET m == Len(q) IN
    IF m > N THEN q ELSE Diagonal(N, s, Append(q, RMul(RNeg(RSqrt(RDiv(2 * m + 1, 2 * m))), RMul(s, q[m]))))
Column(N, m, x, q) ==   \* q = <<Q[m,m], ...>>, up to Q[N,m]
    LET k == Len(q) n == m + k IN
    IF n > N THEN q
    ELSE IF k = 1 THEN Column(N, m, x, Append(q, RMul(RSqrt(2 * m + 3), RMul(x, q[1]))))
    ELSE LET c == RSqrt(RDiv((2 * n + 1) * (2 * n - 1), (n - m) * (n + m)))
             d == RSqrt(RDiv((2 * n + 1) * (n - m - 1) * (n + m - 1), (2 * n - 3) * (n - m) * (n + m)))
         IN Column(N, m, x, Append(q, RSub(RMul(c, RMul(x, q[k])), RMul(d, q[k - 1]))))
Legendre(N, phi) ==
    LET x == RCos(phi)
        D == Diagonal(N, RSin(phi), <<RSqrt(RDiv(1, RMul(4, RPi)))>>)
        cols == TLCEval([m \in 0..N |-> Column(N, m, x, <<D[m + 1]>>)])
    IN TLCEval([i \in 1..Count(N) |-> LET n == Degree(i) m == Order(i) IN cols[m][n - m + 1]])
(* All harmonics up to degree N at one point: real and imaginary parts.      *)
Harmonics(N, theta, phi) ==
    LET Q == Legendre(N, phi)
        C == TLCEval([m \in 0..N |-> RCos(RMul(m, theta))]) S == TLCEval([m \in 0..N |-> RSin(RMul(m, theta))])
    IN TLCEval([i \in 1..Count(N) |-> [re |-> RMul(Q[i], C[Order(i)]), im |-> RMul(Q[i], S[Order(i)])]])
(* f, w: values and weights of the points; Y: Harmonics of every point.      *)
Decompose(f, w, Y, i) ==
    LET k == RDiv(RMul(RMul(4, RPi), Mul(Order(i))), RSum(w))
        g == TLCEval([p \in 1..Len(f) |-> RMul(f[p], w[p])])
    IN [re |-> RMul(k, RDot(g, [p \in 1..Len(f) |-> Y[p][i].re])), im |-> RMul(k, RDot(g, [p \in 1..Len(f) |-> Y[p][i].im]))]
Recompose(c, y) == \* c: coefficients, y: Harmonics of the point
    RAdd(RDot([i \in 1..Len(c) |-> c[i].re], [i \in 1..Len(c) |-> y[i].re]),
         RDot([i \in 1..Len(c) |-> c[i].im], [i \in 1..Len(c) |-> y[i].im]))

(* --- Voronoi cells ------------------------------------------------------ *)
Vec(theta, phi) == <<RMul(RSin(phi), RSin(theta)), RMul(RSin(phi), RCos(theta)), RCos(phi)>>
Dot(a, b) == RDot(a, b)
Minus(a, b) == [k \in 1..3 |-> RSub(a[k], b[k])]
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                 RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
Unit(a) == LET n == RSqrt(Dot(a, a)) IN [k \in 1..3 |-> RDiv(a[k], n)]
Det(a, b, c) == Dot(a, Cross(b, c))
(* Signed area of the triangle a b c (positive when counterclockwise).       *)
Area(a, b, c) ==
    RMul(2, RAtan2(Det(a, b, c), RAdd(RAdd(1, Dot(a, b)), RAdd(Dot(b, c), Dot(c, a)))))
(* V: points.  The circle through p, q, r is empty when no point lies beyond *)
(* its plane; the points on it are ordered counterclockwise, and q, r are    *)
(* the ones after and before p.  The cell of p is the union of its kites.    *)
Tiny == "1e-12"
Kite(V, p, q, r) ==
    LET raw == Cross(Minus(V[q], V[p]), Minus(V[r], V[p]))
        flat == RLe(Dot(raw, raw), "1e-24")
        n == Unit(raw) h == Dot(n, V[p])
        on == {s \in 1..Len(V) : RLe(RAbs(RSub(Dot(n, V[s]), h)), Tiny)}
        left(a, b, s) == RLt(0, Dot(n, Cross(Minus(V[b], V[a]), Minus(V[s], V[a]))))
        half(a, b) == Unit([k \in 1..3 |-> RAdd(V[a][k], V[b][k])])
    IN IF flat THEN 0
       ELSE IF \E s \in 1..Len(V) : RLt(RAdd(h, Tiny), Dot(n, V[s])) THEN 0
       ELSE IF \E s \in on \ {p, q, r} : ~left(p, q, s) \/ ~left(r, p, s) THEN 0
       ELSE RAdd(Area(V[p], half(p, q), n), Area(V[p], n, half(p, r)))
Cell(V, p) ==
    LET o == (1..Len(V)) \ {p} q == SetToSeqAny({qr \in o \X o : qr[1] # qr[2]})
    IN RSum([i \in 1..Len(q) |-> Kite(V, p, q[i][1], q[i][2])])
(* The centre of the sphere is inside the hull: no open hemisphere is empty. *)
Surrounds(V) ==
    /\ Len(V) >= 4
    /\ \A p, q \in 1..Len(V) : p < q =>
          LET n == Cross(V[p], V[q]) IN
          RLe(Dot(n, n), "1e-12") \/ ((\E s \in 1..Len(V) : RLt("1e-6", Dot(n, V[s]))) /\ (\E s \in 1..Len(V) : RLt(Dot(n, V[s]), "-1e-6")))
=============================================================================

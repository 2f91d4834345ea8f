---------------------------- MODULE MC_Spherical ----------------------------
(***************************************************************************)
(* Laws of the harmonics: a reader goes through the orders (n, m) as the   *)
(* coefficients are stored, on a product grid of K Gauss latitudes and     *)
(* 2 K longitudes, whose quadrature is exact for products of harmonics up  *)
(* to degree K - 1.                                                        *)
(***************************************************************************)
EXTENDS Spherical, TraceIO, IOUtils
CONSTANTS Degrees
VARIABLES N, n, m, at
v == <<N, n, m, at>>
Init == N \in Degrees /\ n = 0 /\ m = 0 /\ at = 1
Next == /\ ~(n = N /\ m = N)
        /\ IF m < n THEN n' = n /\ m' = m + 1 ELSE n' = n + 1 /\ m' = 0
        /\ at' = at + 1 /\ UNCHANGED N
Spec == Init /\ [][Next]_v
OrderInv == at = Index(n, m) /\ Degree(at) = n /\ Order(at) = m
CountInv == (n = N /\ m = N) => at = Count(N)
(* Gauss-Legendre with 4 nodes                                               *)
X4 == <<"-0.861136311594052575223946488892809505096", "-0.339981043584856264802665759103244687200",
        "0.339981043584856264802665759103244687200", "0.861136311594052575223946488892809505096">>
W4 == <<"0.347854845137453857373063949221999407235", "0.652145154862546142626936050778000592765",
        "0.652145154862546142626936050778000592765", "0.347854845137453857373063949221999407235">>
Grid == [p \in 1..32 |-> [theta |-> RDiv(RMul((p - 1) % 8, RPi), 4), phi |-> RAcos(X4[((p - 1) \div 8) + 1]), w |-> RDiv(RMul(W4[((p - 1) \div 8) + 1], RPi), 4)]]
Table == TLCEval([p \in 1..32 |-> Harmonics(3, Grid[p].theta, Grid[p].phi)])
Weights == TLCEval([p \in 1..32 |-> Grid[p].w])
Near(x, y) == Within(x, y, "1e-25")
Product(Y, w, i, j) == \* integral of Y_i conj(Y_j): real and imaginary part
    [re |-> RSum([p \in 1..32 |-> RMul(w[p], RAdd(RMul(Y[p][i].re, Y[p][j].re), RMul(Y[p][i].im, Y[p][j].im)))]),
     im |-> RSum([p \in 1..32 |-> RMul(w[p], RSub(RMul(Y[p][i].im, Y[p][j].re), RMul(Y[p][i].re, Y[p][j].im)))])]
OrthoInv == n <= 3 =>
    LET Y == Table w == Weights IN
    \A j \in 1..Count(3) : LET q == Product(Y, w, at, j) IN Near(q.re, IF at = j THEN 1 ELSE 0) /\ Near(q.im, 0)
(* A field that is one harmonic comes back: coefficient 1 in its place, and   *)
(* recomposition gives the field.                                            *)
TripInv == n <= 3 =>
    LET Y == Table w == Weights IN
    \A part \in {"re", "im"} :
    LET f == TLCEval([p \in 1..32 |-> Y[p][at][part]])
        c == TLCEval([i \in 1..Count(3) |-> Decompose(f, w, Y, i)])
        zero == part = "im" /\ m = 0
    IN /\ \A i \in 1..Count(3) : /\ Near(c[i].re, IF i = at /\ part = "re" THEN 1 ELSE 0)
                                 /\ Near(c[i].im, IF i = at /\ part = "im" /\ ~zero THEN 1 ELSE 0)
       /\ \A p \in {1, 7, 12, 21} : Near(Recompose(c, Y[p]), f[p])
(* Addition theorem, and reflection at the equator, at general points        *)
Pts == {<<"0.3", "0.7">>, <<"-2.1", "1.9">>, <<"4", "3.1">>}
AdditionInv == m = n => \A q \in Pts :
    LET y == Harmonics(N, q[1], q[2]) IN
    Near(RSum([k \in 1..(n + 1) |-> LET h == y[Index(n, k - 1)] IN RMul(Mul(k - 1), RAdd(RMul(h.re, h.re), RMul(h.im, h.im)))]),
         RDiv(2 * n + 1, RMul(4, RPi)))
MirrorInv == \A q \in Pts :
    LET a == Harmonics(N, q[1], q[2])[at] b == Harmonics(N, q[1], RSub(RPi, q[2]))[at]
    IN Near(b.re, IF (n + m) % 2 = 0 THEN a.re ELSE RNeg(a.re)) /\ Near(b.im, IF (n + m) % 2 = 0 THEN a.im ELSE RNeg(a.im))
ClosedInv ==  \* the first harmonics in closed form
    LET y == Harmonics(2, "0.3", "0.7") x == RCos("0.7") s == RSin("0.7") k(a, b) == RSqrt(RDiv(a, RMul(b, RPi))) IN
    /\ Near(y[1].re, k(1, 4)) /\ Near(y[2].re, RMul(k(3, 4), x)) /\ Near(y[3].re, RNeg(RMul(k(3, 8), RMul(s, RCos("0.3")))))
    /\ Near(y[4].re, RMul(k(5, 16), RSub(RMul(3, RMul(x, x)), 1)))
    /\ Near(y[6].im, RMul(k(15, 32), RMul(RMul(s, s), RSin("0.6"))))
EmitCase == Emit(IOEnv.VP_CASES, [kind |-> "harmonic", big |-> N, at |-> at])
=============================================================================

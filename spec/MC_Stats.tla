------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* A reader of pairs keeping running sums (weight, values, products),      *)
(* which skips a pair with a missing member.  Its final correlation and    *)
(* normalised error are compared with the two-pass definitions.            *)
(***************************************************************************)
EXTENDS Stats, TraceIO, IOUtils
CONSTANTS MaxLen, Values, Gaps
VARIABLES a, b, w, gone, at, sums
v == <<a, b, w, gone, at, sums>>
Zero == [n |-> 0, a |-> 0, b |-> 0, aa |-> 0, bb |-> 0, ab |-> 0]
Init == /\ \E n \in 2..MaxLen : a \in [1..n -> Values] /\ b \in [1..n -> Values] /\ gone \in {g \in SUBSET (1..n) : Cardinality(g) <= Gaps}
        /\ w \in {[i \in 1..Len(a) |-> 1], [i \in 1..Len(a) |-> (i % 2) + 1], [i \in 1..Len(a) |-> Len(a) + 1 - i]}
        /\ at = 1 /\ sums = Zero
Next == /\ at <= Len(a) /\ at' = at + 1 /\ UNCHANGED <<a, b, w, gone>>
        /\ sums' = IF at \in gone THEN sums
                   ELSE LET k == w[at] x == a[at] y == b[at] IN
                        [n |-> sums.n + k, a |-> sums.a + k * x, b |-> sums.b + k * y, aa |-> sums.aa + k * x * x,
                         bb |-> sums.bb + k * y * y, ab |-> sums.ab + k * x * y]
Spec == Init /\ [][Next]_v
Done == at > Len(a)
Kept == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : i \notin gone)
A == Choose(a, Kept)
B == Choose(b, Kept)
W == Choose(w, Kept)
SA == sums.n * sums.aa - sums.a * sums.a        \* n^2 times the variance
SB == sums.n * sums.bb - sums.b * sums.b
SAB == sums.n * sums.ab - sums.a * sums.b
Near(x, y) == Within(x, y, "1e-25")
Ok == Done /\ Kept # <<>> /\ SA > 0
PearsonInv == (Ok /\ SB > 0) =>
    LET r == Pearson(A, B, W) IN
    /\ Near(r, RDiv(SAB, RSqrt(RMul(SA, SB))))
    /\ RLe(RAbs(r), "1.0000000000000000000001") /\ Near(r, Pearson(B, A, W))
    /\ Near(Pearson(A, [i \in 1..Len(A) |-> 3 * A[i] - 7], W), 1) /\ Near(Pearson(A, [i \in 1..Len(A) |-> 2 - A[i]], W), -1)
    /\ Near(r, Pearson([i \in 1..Len(A) |-> 2 * A[i] + 5], B, [i \in 1..Len(A) |-> 4 * W[i]]))
NmseInv == Ok =>
    LET z == Nmse(A, B, W) m == WMean(A, W) IN
    /\ Near(z, RDiv(sums.n * (sums.aa - 2 * sums.ab + sums.bb), SA))
    /\ Near(Nmse(A, A, W), 0) /\ Near(Nmse(A, [i \in 1..Len(A) |-> m], W), 1) /\ RLe(0, z)
    /\ Near(z, Nmse([i \in 1..Len(A) |-> 3 * A[i] + 2], [i \in 1..Len(A) |-> 3 * B[i] + 2], W))
EmitCase == (Ok /\ SB > 0) => Emit(IOEnv.VP_CASES, [kind |-> "pairs", a |-> a, b |-> b, w |-> w, gone |-> [i \in 1..Len(a) |-> i \in gone]])
=============================================================================

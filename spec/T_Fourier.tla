----------------------------- MODULE T_Fourier ------------------------------
(***************************************************************************)
(* Judges recorded filter calls (F01, F02).  a.op names the filter ("none" *)
(* or a sequence in a.ops for fourier_filter with several flags).          *)
(***************************************************************************)
EXTENDS Fourier, Trace
(* Frequency index of a cutoff: cutoff / (frequency / n), where a cutoff on  *)
(* a discrete frequency leaves no choice if the quotient is exact in binary. *)
Exact(x) == REq(RDouble(x), x)
Indices(cut, freq, n, R(_)) ==
    LET res == RDiv(freq, n) x == RDiv(cut, res)
    IN IF Exact(res) /\ Exact(x) THEN {R(x)} ELSE {R(RMul(x, "0.999999999999")), R(RMul(x, "1.000000000001"))}
ToInt(x, m) == \* the integer real x, at most m
    CHOOSE k \in 0..m : REq(x, k) \/ (k = m /\ RLe(m, x))
Floors(cut, freq, n) == {ToInt(x, n + 1) : x \in Indices(cut, freq, n, RFloor)}
Ceils(cut, freq, n) == {ToInt(x, n + 1) : x \in Indices(cut, freq, n, RCeil)}
Keeps(a, n) ==  \* the sets of bins that may be kept
    LET f == a.frequency.v[1]
        inter(lo, hi) == {b \in Bins(n) : \A i \in 1..Len(a.ops) : b \in Kept(n, a.ops[i], lo, hi)}
    IN {inter(lo, hi) : lo \in Floors(a.low.v[1], f, n), hi \in Ceils(a.high.v[1], f, n)}
HasNaN(x) == \E i \in 1..Len(x) : RIsNaN(x[i])
SeriesOk(x, y, Hs, rel) ==
    \/ HasNaN(x)
    \/ \E h \in Hs : LET z == Filtered(x, h) tol == RMul(rel, RMaxAbs(x)) IN \A t \in 1..Len(x) : Within(z[t], y[t], tol)
JudgeF(s, k) ==
    LET e == s.events[k] a == e.args r == e.result IN
    IF e.outcome # "ok" THEN "raised " \o e.error
    ELSE LET d == a.signal nd == Len(d.shape) ax == IF a.axis < 0 THEN nd + a.axis + 1 ELSE a.axis + 1
             n == d.shape[ax] rel == Eps(d)
             Hs == TLCEval({Kernel(n, K) : K \in Keeps(a, n)})
         IN CASE r.k # d.k -> "container"
              [] r.shape # d.shape -> "shape"
              [] d.k = "da" /\ (r.dims # d.dims \/ r.name # d.name \/ r.attrs # d.attrs) -> "dimensions, name or attributes"
              [] d.k = "da" /\ (CoordNames(r) # CoordNames(d)
                                \/ \E c \in CoordNames(d) : ~SameCoord(Coord(d, c), Coord(r, c))) -> "coordinates"
              [] \E o \in 1..Outer(d.shape, ax), i \in 1..Inner(d.shape, ax) :
                    ~SeriesOk(Along(d, ax, o, i), Along(r, ax, o, i), Hs, rel) -> "values"
              [] OTHER -> ""
=============================================================================

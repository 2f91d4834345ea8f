----------------------------- MODULE MC_Hybrid -----------------------------
(***************************************************************************)
(* Hybrid levels are added to a column one after another; coefficients are *)
(* sixteenths, the reference pressure 16, so that every level pressure is  *)
(* an integer.  The column keeps its last interface and the thickness of   *)
(* the layer closed by each new one.  In every state this agrees with the  *)
(* definitions of module Vertical, the layers of a monotone column tile    *)
(* it, the storage order is irrelevant, and interpolating in sigma is      *)
(* interpolating in pressure.                                              *)
(***************************************************************************)
EXTENDS Vertical, TraceIO, IOUtils
CONSTANTS As, Bs, Surfaces, Most, SigmaGrids

P0 == 16
Grids == {<<1, 4, 11, 16>>, <<2, 5, 8, 13>>}
VARIABLES a, b, ps,         \* coefficients (in sixteenths) so far; the surface pressure
          last, layers,     \* pressure of the last level, thicknesses between neighbours
          dir               \* "none", "down", "up" (pressures so far monotone), "mixed"
vars == <<a, b, ps, last, layers, dir>>
Pressure(x, y) == x * 1 + (y * ps) \div 16      \* surfaces are multiples of 16
AbsI(n) == IF n < 0 THEN -n ELSE n

Init == ps \in Surfaces /\ a = <<>> /\ b = <<>> /\ last = 0 /\ layers = <<>> /\ dir = "none"
Add(x, y) ==
    LET p == Pressure(x, y) IN
    /\ Len(a) < Most
    /\ a' = Append(a, x) /\ b' = Append(b, y) /\ last' = p /\ UNCHANGED ps
    /\ layers' = IF a = <<>> THEN <<>> ELSE Append(layers, AbsI(p - last))
    /\ dir' = CASE a = <<>> \/ p = last -> dir
                [] p > last -> IF dir \in {"none", "down"} THEN "down" ELSE "mixed"
                [] OTHER -> IF dir \in {"none", "up"} THEN "up" ELSE "mixed"
Next == \E x \in As, y \in Bs : Add(x, y)
Spec == Init /\ [][Next]_vars

N == Len(a)
A16(k) == RDiv(a[k], 16)
B16(k) == RDiv(b[k], 16)
P(k) == LevelPressure(A16(k), B16(k), P0, ps)
Same(x, y) == (RIsNaN(x) /\ RIsNaN(y)) \/ RLe(RAbs(RSub(x, y)), "1e-30")
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

LevelInv == N > 0 =>
    /\ Same(P(N), last)
    /\ b[N] = 0 => Same(P(N), a[N])                             \* pure pressure level
    /\ (a[N] = 0 /\ b[N] = 16) => Same(P(N), ps)                \* the surface
    /\ Same(RMul(Sigma(A16(N), B16(N), P0, ps), ps), P(N))
LayerInv == N > 1 =>
    /\ Len(layers) = N - 1
    /\ \A k \in 1..(N - 1) :
         /\ Same(layers[k], RAbs(RSub(P(k + 1), P(k))))
         /\ Same(layers[k], RAbs(RAdd(RMul(RSub(A16(k + 1), A16(k)), P0), RMul(RSub(B16(k + 1), B16(k)), ps))))
TileInv == N > 1 =>
    LET ends == AbsI(last - Pressure(a[1], b[1])) IN
    IF dir = "mixed" THEN Total(layers) > ends ELSE Total(layers) = ends
(* interpolation in sigma, wherever the surface pressure puts the sigmas     *)
SigmaInv == N > 0 => \A G \in SigmaGrids : \A m \in {"linear", "log"} :
    LET S == [j \in 1..Len(G) |-> RDiv(G[j], 16)]
        X == [j \in 1..Len(G) |-> 100 + 7 * j * j]
        Q == [j \in 1..Len(G) |-> RMul(S[j], ps)]
        s == Sigma(A16(N), B16(N), P0, ps)
        y == Interp(S, X, s, m)
    IN (m = "linear" \/ (RLt(0, s) /\ \A j \in 1..Len(G) : G[j] > 0)) =>
       /\ (RIsNaN(y) /\ RIsNaN(Interp(Q, X, P(N), m))) \/ RLe(RAbs(RSub(y, Interp(Q, X, P(N), m))), "1e-25")
       /\ RIsNaN(y) <=> (RLt(s, S[1]) \/ RLt(S[Len(G)], s))
       /\ \A j \in 1..Len(G) : REq(S[j], s) => Same(y, X[j])
EmitCase == (N = Most /\ ps = CHOOSE q \in Surfaces : \A u \in Surfaces : q <= u) =>
    Emit(IOEnv.VP_CASES, [kind |-> "hybridcol", a |-> a, b |-> b, surfaces |-> SetToSeqInt(Surfaces)])
=============================================================================

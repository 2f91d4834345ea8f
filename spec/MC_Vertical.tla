---------------------------- MODULE MC_Vertical ----------------------------
(***************************************************************************)
(* A scan down one column: the levels are met one after another, from the  *)
(* top; the scan remembers the last level seen, closes the layer above it  *)
(* at the midpoint (or at the surface, whichever comes first), sums up the *)
(* layers, and notes for every target pressure the level above and below.  *)
(* Checked in every state against the definitions of module Vertical.      *)
(***************************************************************************)
EXTENDS Vertical, TraceIO, IOUtils
CONSTANTS Grid, MinLevels, MaxLevels, Targets, Surfaces

Ascending(S) == SetToSeqInt(S)
VARIABLES levels, miss, sp, top,    \* the column: pressures, missing levels, surface and top pressure
          k,                        \* levels met so far
          edge, ground,             \* lower edge of the layers closed so far; has the surface been reached?
          layers, total, stream,    \* thicknesses so far, their sum, the partial sums of value times thickness
          lo, hi                    \* per target: last level at or above it, first level at or below it
vars == <<levels, miss, sp, top, k, edge, ground, layers, total, stream, lo, hi>>

X(j) == IF j \in miss THEN RNaN ELSE RKeep(j * j + 1)
Xs == TLCEval([j \in 1..Len(levels) |-> X(j)])
Init == /\ \E S \in {S \in SUBSET Grid : Cardinality(S) \in MinLevels..MaxLevels} : levels = Ascending(S)
        /\ miss \in SUBSET (1..Len(levels)) /\ Cardinality(miss) <= 1
        /\ top \in {levels[1], levels[1] - 1, 0}
        /\ sp \in {s \in Surfaces : s >= top /\ s > 0}
        /\ k = 0 /\ edge = top /\ ground = FALSE
        /\ layers = <<>> /\ total = 0 /\ stream = <<>>
        /\ lo = [q \in Targets |-> 0] /\ hi = [q \in Targets |-> 0]
N == Len(levels)
(* meet level k + 1: the layer of level k + 1 ends at the midpoint to the    *)
(* level after it, unless that midpoint is not above the surface.            *)
Meet == /\ k < N
        /\ k' = k + 1
        /\ LET last == k + 1 = N \/ levels[k + 1] + levels[k + 2] >= 2 * sp
               bottom == IF last THEN RNum(sp) ELSE RDiv(levels[k + 1] + levels[k + 2], 2)
               t == IF ground THEN RNaN ELSE RSub(bottom, edge)
           IN /\ layers' = Append(layers, RKeep(t))
              /\ edge' = IF ground THEN edge ELSE RKeep(bottom)
              /\ ground' = (ground \/ last)
              /\ total' = IF ground THEN total ELSE RKeep(RAdd(total, t))
              /\ stream' = Append(stream, RKeep(RAdd(IF k = 0 THEN 0 ELSE stream[k], OrZero(RMul(t, X(k + 1))))))
        /\ lo' = [q \in Targets |-> IF levels[k + 1] <= q THEN k + 1 ELSE lo[q]]
        /\ hi' = [q \in Targets |-> IF hi[q] = 0 /\ levels[k + 1] >= q THEN k + 1 ELSE hi[q]]
        /\ UNCHANGED <<levels, miss, sp, top>>
Spec == Init /\ [][Meet]_vars

Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RLe(RAbs(RSub(a, b)), "1e-30")
(* the layers met so far tile the column from the top to the edge            *)
TileInv == Same(total, RSub(edge, top)) /\ (ground => Same(edge, sp))
PositiveInv == \A j \in 1..k : RIsNaN(layers[j]) \/ RLe(0, layers[j])
Done == k = N
ThickInv == Done => LET D == ThicknessOf(levels, sp, top)
                        R == ThicknessOf([j \in 1..N |-> levels[N + 1 - j]], sp, top) IN
    /\ ground
    /\ \A j \in 1..N : Same(D[j], layers[j]) /\ Same(R[N + 1 - j], layers[j])
    /\ Same(RSum(Finites([j \in 1..N |-> D[j]])), sp - top)
StreamInv == (Done /\ top = levels[1]) =>
    LET S == StreamSum(levels, Xs, sp)
        R == StreamSum([j \in 1..N |-> levels[N + 1 - j]], [j \in 1..N |-> Xs[N + 1 - j]], sp) IN
    \A j \in 1..N : Same(S[j], stream[j]) /\ Same(R[N + 1 - j], stream[j])
(* interpolation between the two levels that the scan found                  *)
InterpInv == Done => \A q \in Targets : \A m \in {"linear", "log"} :
    LET y == Interp(levels, Xs, q, m) IN
    /\ IF lo[q] = 0 \/ hi[q] = 0 THEN RIsNaN(y)
       ELSE IF lo[q] = hi[q] THEN Same(y, X(lo[q]))
       ELSE /\ hi[q] = lo[q] + 1
            /\ RIsNaN(y) <=> ({lo[q], hi[q]} \cap miss # {})
            /\ ~RIsNaN(y) => RLt(X(lo[q]), y) /\ RLt(y, X(hi[q]))      \* X increases: strictly between
            /\ (m = "linear" /\ ~RIsNaN(y)) =>
                 Same(RMul(RSub(y, X(lo[q])), levels[hi[q]] - levels[lo[q]]),
                      RMul(RSub(X(hi[q]), X(lo[q])), q - levels[lo[q]]))
    /\ InterpIs(levels, Xs, q, m, y, "1e-12")
    (* the order in which levels are stored is irrelevant                    *)
    /\ Same(y, Interp([j \in 1..N |-> levels[N + 1 - j]], [j \in 1..N |-> Xs[N + 1 - j]], q, m))
(* The extrapolation formulas are continuous at the ground and across their  *)
(* regimes (checked on a grid of surface temperatures and heights).          *)
Tiny == "1e-12"
ASSUME ContinuousAtGround ==
    \A t \in {250, 280, 300} : \A h \in {0, 1000, 3000} :
       LET phi == RDiv(h, GInv) IN
       /\ RLe(RAbs(RSub(TempBelow(t, 100000, 100000, 100000, IF h = 0 THEN 1 ELSE phi), t)), "1e-20")
       /\ RLe(RAbs(RSub(GeoBelow(t, 100000, 100000, 100000, IF h = 0 THEN 1 ELSE phi), RMul(IF h = 0 THEN 1 ELSE phi, GInv))), "1e-20")
Cont(f(_, _), t, h) ==       \* f(t_bot, height) barely changes when both do
    \A dt \in {-1, 1} : \A dh \in {-1, 1} :
      RLe(RAbs(RSub(f(RAdd(t, RMul(dt, Tiny)), RAdd(h, RMul(dh, Tiny))), f(t, h))), "1e-8")
TempAt(t, h) == TempBelow(t, 110000, 95000, 100000, RDiv(h, GInv))
GeoAt(t, h) == GeoBelow(t, 110000, 95000, 100000, RDiv(h, GInv))
(* t_bot for which t* = x, given ps and the lowest level above               *)
TBotFor(x) == RDiv(x, RAdd(1, RMul(Alpha, RSub(RDiv(100000, 95000), 1))))
ASSUME ContinuousTemp == \A h \in {2000, 2500} : \A t \in {240, 270, 285, 300} : Cont(TempAt, t, h)
ASSUME ContinuousTempPlateau ==      \* where t0 passes 298, and t' passes t*
    \A h \in {2100, 2600} : Cont(TempAt, TBotFor(RSub(298, RMul(Lapse, h))), h) /\ Cont(TempAt, TBotFor(298), h)
ASSUME ContinuousGeo ==
    /\ \A h \in {100, 2000} : Cont(GeoAt, TBotFor(255), h) /\ Cont(GeoAt, TBotFor("290.5"), h)
    /\ \A h \in {100, 2000} : Cont(GeoAt, TBotFor(RSub("290.5", RMul(Lapse, h))), h)
EmitCase == (Done /\ miss = {}) =>
    Emit(IOEnv.VP_CASES, [kind |-> "column", levels |-> levels, sp |-> sp, top |-> top])
EmitInterp == (Done /\ top = levels[1] /\ sp = CHOOSE s \in Surfaces : \A u \in Surfaces : u <= s) =>
    Emit(IOEnv.VP_CASES, [kind |-> "interp", levels |-> levels, miss |-> [j \in 1..N |-> j \in miss],
                          targets |-> SetToSeqInt(Targets)])
=============================================================================

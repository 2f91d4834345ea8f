------------------------------ MODULE MC_Meteo ------------------------------
(***************************************************************************)
(* A parcel of air that is warmed, cooled, moistened and dried.  The heat  *)
(* index regime is followed as the parcel crosses its boundaries, with     *)
(* integer arithmetic in thousandths, and compared in every state with the *)
(* definitions of module Meteo; the other quantities must keep their order *)
(* along the parcel's moves.                                               *)
(***************************************************************************)
EXTENDS Meteo, TraceIO, IOUtils
CONSTANTS Ts, Rs      \* temperatures (F) and humidities (percent) that the parcel can reach

TSeq == SetToSeqInt(Ts)
RSeq == SetToSeqInt(Rs)
VARIABLES ti, ri, alt,          \* the parcel: positions in TSeq, RSeq; coefficient set
          base, dry, humid      \* its regime
vars == <<ti, ri, alt, base, dry, humid>>
T == TSeq[ti]
R == RSeq[ri]
(* the boundaries, in exact arithmetic                                       *)
Hot(t, r) == 61000 + 1200 * (t - 68) + 94 * r + 1000 * t >= 2000 * (IF alt THEN 70 ELSE 79)
Init == ti = 1 /\ ri = 1 /\ alt \in BOOLEAN /\ base = "cold" /\ dry = FALSE /\ humid = FALSE
Enter(t, r) ==       \* the parcel arrives at (t, r)
    /\ base' = (CASE base = "cold" -> IF t < 40 THEN "cold" ELSE IF Hot(t, r) THEN "regression" ELSE "simple"
                  [] base = "simple" -> IF t < 40 THEN "cold" ELSE IF Hot(t, r) THEN "regression" ELSE "simple"
                  [] base = "regression" -> IF Hot(t, r) THEN "regression" ELSE IF t < 40 THEN "cold" ELSE "simple")
    /\ dry' = (r <= 13 /\ t \in 80..112)
    /\ humid' = (r > 85 /\ t \in 80..87)
    /\ UNCHANGED alt
Warm == ti < Len(TSeq) /\ ti' = ti + 1 /\ UNCHANGED ri /\ Enter(TSeq[ti + 1], R)
Cool == ti > 1 /\ ti' = ti - 1 /\ UNCHANGED ri /\ Enter(TSeq[ti - 1], R)
Moisten == ri < Len(RSeq) /\ ri' = ri + 1 /\ UNCHANGED ti /\ Enter(T, RSeq[ri + 1])
Dry == ri > 1 /\ ri' = ri - 1 /\ UNCHANGED ti /\ Enter(T, RSeq[ri - 1])
Next == Warm \/ Cool \/ Moisten \/ Dry
Spec == Init /\ [][Next]_vars
(* warming and moistening never leave the regression, and never bring cold   *)
Climb == [][(Warm \/ Moisten) => /\ base = "regression" => base' = "regression"
                                 /\ base' = "cold" => base = "cold"]_vars

Same(a, b) == RLe(RAbs(RSub(a, b)), "1e-25")
RegimeInv ==
    /\ base = Base(alt, T, R) /\ dry = IsDry(T, R) /\ humid = IsHumid(T, R) /\ ~(dry /\ humid)
    /\ dry => RLe(Adjustment(T, R), 0)
    /\ humid => RLe(0, Adjustment(T, R))
    /\ (~dry /\ ~humid) => Same(Adjustment(T, R), 0)
HeatInv ==
    /\ base = "cold" => Same(HeatIndex(alt, T, R), T)
    /\ base = "simple" => Same(RAdd(HeatIndex(alt, T, R), RNeg(Adjustment(T, R))),
                               RDiv(61000 + 1200 * (T - 68) + 94 * R + 1000 * T, 2000))
    (* the two coefficient sets agree within 3 F where both are meant to hold  *)
    /\ (base = "regression" /\ ~alt /\ T \in 80..110 /\ R \in 40..80 /\ T + R < 165) =>
          RLe(RAbs(RSub(Regression(TRUE, T, R), Regression(FALSE, T, R))), 4)
K == RAdd(RDiv(RMul(RSub(T, 32), 5), 9), "273.15")
DewInv ==
    /\ Same(DewPoint(K, 100), K)
    /\ (R > 0 /\ R < 100) => RLt(DewPoint(K, R), K)
    /\ (R > 0 /\ ri < Len(RSeq)) => RLt(DewPoint(K, R), DewPoint(K, RSeq[ri + 1]))
Pressure == 95000
SaturationInv ==
    /\ Same(RelHumIce(K, SatMixing(MagnusIce(K), Pressure), Pressure), 100)
    /\ Same(RelHumWater(K, SatMixing(MagnusWater(K), Pressure), Pressure), 100)
    /\ LET es == SatTable(K) IN
       Same(RelHum(K, RDiv(RMul("0.622", es), RSub(Pressure, RMul("0.378", es))), Pressure), 100)
    /\ LET w == RDiv(RAdd(R, 1), 5000) IN RLt(RelHumIce(K, w, Pressure), RelHumIce(K, RMul(w, 2), Pressure))
    /\ RLe(RelHum(K, 0, Pressure), "0.0001")
TetensInv ==
    LET c == Celsius(T) h == "0.001" IN
    IF T <= 32 THEN Svp(T, -9) = -9 /\ SvpSlope(T, -9) = -9
    ELSE /\ RLt("0.6107", Svp(T, -9))
         /\ ti < Len(TSeq) => RLt(Svp(T, -9), Svp(TSeq[ti + 1], -9))
         (* the slope is the derivative (4096 stands for 17.27 * 237.3)         *)
         /\ LET d == RDiv(RSub(Tetens(RAdd(c, h)), Tetens(RSub(c, h))), RMul(2, h)) IN
            RLe(RAbs(RSub(SvpSlope(T, -9), d)), RMul("0.001", d))
EmitCase == Emit(IOEnv.VP_CASES, [kind |-> "parcel", t |-> T, r |-> R, alt |-> alt, base |-> base])
=============================================================================

---------------------------- MODULE MC_SatTable -----------------------------
(***************************************************************************)
(* A slow warming through the saturation table, in quarters of a degree    *)
(* from below its first to above its last entry.  The saturation vapor     *)
(* pressure is carried along by its increments.                            *)
(***************************************************************************)
EXTENDS Meteo, TraceIO, IOUtils
CONSTANT Below       \* quarters of a degree below the first entry at the start
VARIABLES q, es      \* quarters above the first entry; pressure carried along
vars == <<q, es>>
NQ == 4 * 202        \* the last quarter before the upper limit
At0 == RMul("0.1", Table[1])
Init == q = 0 - Below /\ es = RKeep(At0)
Inc(k) == RDiv(RMul("0.1", RSub(Table[k + 2], Table[k + 1])), 4)       \* within interval k
Next == /\ q < NQ + Below
        /\ q' = q + 1
        /\ es' = IF q < 0 \/ q >= NQ THEN es ELSE RKeep(RAdd(es, Inc(q \div 4)))
Spec == Init /\ [][Next]_vars
T == RAdd(TMin, RDiv(q, 4))
CarriedInv == RLe(RAbs(RSub(es, SatTable(T))), "1e-20")
MonotoneInv == RLe(SatTable(T), SatTable(RAdd(T, "0.25")))
(* the table agrees with the Magnus formulas, over ice up to 20 degrees of    *)
(* frost and over water above freezing                                       *)
MagnusInv == (q \in 40..320 \/ q \in 400..800) =>
    LET m == RMul(100, IF q < 400 THEN MagnusIce(T) ELSE MagnusWater(T))
    IN RLe(RAbs(RSub(m, SatTable(T))), RMul("0.03", m))
EmitCase == Emit(IOEnv.VP_CASES, [kind |-> "table", q |-> q])
ASSUME Len(Table) = 204
=============================================================================

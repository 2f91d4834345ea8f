------------------------------ MODULE Vertical ------------------------------
(***************************************************************************)
(* Vertical coordinates, one column at a time.  A column is a sequence P   *)
(* of level pressures (in any order, distinct) with values X.              *)
(* MC_Vertical checks these definitions against scans down the column.     *)
(***************************************************************************)
EXTENDS Arrays

(* the standard pressure levels (Pa)                                         *)
MandatoryLevels == <<100000, 92500, 85000, 70000, 50000, 40000, 30000, 25000, 20000, 15000, 10000,
                     7000, 5000, 3000, 2000, 1000, 700, 500, 300, 200, 100>>
LevelPressure(a, b, p0, ps) == RAdd(RMul(a, p0), RMul(b, ps))
Sigma(a, b, p0, ps) == RAdd(RDiv(RMul(a, p0), ps), b)

Near(x, y, rel) == RLe(RAbs(RSub(x, y)), RMul(rel, RMax(RAbs(x), RAbs(y))))
Least(P, S) == CHOOSE k \in S : \A j \in S : RLe(P[k], P[j])
Greatest(P, S) == CHOOSE k \in S : \A j \in S : RLe(P[j], P[k])
Above(P, q) == {k \in 1..Len(P) : RLe(P[k], q)}      \* the levels above q (smaller or equal pressure)
Below(P, q) == {k \in 1..Len(P) : RLe(q, P[k])}

Weight(p, p0, p1, method) ==
    IF method = "log" THEN RDiv(RLn(RDiv(p, p0)), RLn(RDiv(p1, p0)))
    ELSE RDiv(RSub(p, p0), RSub(p1, p0))
(* The value at q between the two enclosing levels, missing outside.         *)
Interp(P, X, q, method) ==
    LET A == Above(P, q) B == Below(P, q) IN
    IF A = {} \/ B = {} THEN RNaN ELSE
    LET a == Greatest(P, A) b == Least(P, B) IN
    IF a = b THEN X[a]
    ELSE LET w == Weight(q, P[a], P[b], method) IN
         RAdd(RMul(RSub(1, w), X[a]), RMul(w, X[b]))
(* y is an acceptable result for q: that value up to rounding.  Where q and  *)
(* a level differ only by rounding, the level's value, or missing when q may *)
(* have been taken to lie outside or the neighbour is missing.               *)
InterpIs(P, X, q, method, y, rel) ==
    LET near == {k \in 1..Len(P) : Near(P[k], q, rel)}
        tol(S) == RMul(rel, RMaxAbs([i \in 1..Len(S) |-> IF RIsNaN(S[i]) THEN 0 ELSE S[i]]))
    IN IF near = {} THEN
            LET A == Above(P, q) B == Below(P, q) IN
            IF A = {} \/ B = {} THEN RIsNaN(y)
            ELSE LET a == Greatest(P, A) b == Least(P, B)
                 IN Within(Interp(P, X, q, method), y, tol(<<X[a], X[b]>>))
       ELSE LET k == CHOOSE k \in near : TRUE
                up == {j \in 1..Len(P) : RLt(P[j], P[k])}
                dn == {j \in 1..Len(P) : RLt(P[k], P[j])}
                nb == (IF up = {} THEN {} ELSE {X[Greatest(P, up)]})
                      \union (IF dn = {} THEN {} ELSE {X[Least(P, dn)]})
                edge == (up = {} \/ dn = {}) /\ ~REq(P[k], q)
            IN IF RIsNaN(y) THEN RIsNaN(X[k]) \/ edge \/ \E n \in nb : RIsNaN(n)
               ELSE \/ Within(X[k], y, RMul(10, tol(<<X[k]>> \o SetToSeqAny(nb))))
                    \/ LET A == Above(P, q) B == Below(P, q) IN
                       /\ A # {} /\ B # {}
                       /\ Within(Interp(P, X, q, method), y, tol(<<X[Greatest(P, A)], X[Least(P, B)]>>))

---------------------------------------------------------------------------
(* Below-ground extrapolation (ECMWF, Trenberth et al. 1993).                *)
Rd == "287.04"
GInv == RDiv(1, "9.80616")
Lapse == "0.0065"
Alpha == RMul(RMul(Lapse, Rd), GInv)
TStar(tbot, ps, psfc) == RMul(tbot, RAdd(1, RMul(Alpha, RSub(RDiv(ps, psfc), 1))))
TempBelow(tbot, p, psfc, ps, phi) ==      \* equation 16
    LET ts == TStar(tbot, ps, psfc) h == RMul(phi, GInv) t0 == RAdd(ts, RMul(Lapse, h))
        tpl == RMin(298, t0)
        tp == IF RLt(2500, h) THEN tpl
              ELSE RMul("0.002", RAdd(RMul(RSub(2500, h), t0), RMul(RSub(h, 2000), tpl)))
        ln == RLn(RDiv(p, ps))
        y == IF RLt(h, 2000) THEN RMul(Alpha, ln)
             ELSE IF RLt(tp, ts) THEN 0
             ELSE RMul(RDiv(RMul(Rd, RSub(tp, ts)), phi), ln)
    IN RMul(ts, RPoly(<<1, 1, "0.5", RDiv(1, 6)>>, y))
GeoBelow(tbot, p, psfc, ps, phi) ==       \* equation 15
    LET t1 == TStar(tbot, ps, psfc) h == RMul(phi, GInv) t0 == RAdd(t1, RMul(Lapse, h))
        hot == RLt("290.5", t0)
        al == IF ~hot THEN Alpha ELSE IF RLe(t1, "290.5") THEN RMul(RDiv(Rd, phi), RSub("290.5", t1)) ELSE 0
        t2 == IF hot /\ RLt("290.5", t1) THEN RMul("0.5", RAdd("290.5", t1)) ELSE t1
        t3 == IF RLt(t2, 255) THEN RMul("0.5", RAdd(t2, 255)) ELSE t2
        ln == RLn(RDiv(p, ps)) y == RMul(al, ln)
    IN RSub(h, RMul(RMul(RMul(RMul(Rd, t3), GInv), ln), RPoly(<<1, "0.5", RDiv(1, 6)>>, y)))
Bottom(P) == Greatest(P, 1..Len(P))       \* the level of largest pressure

---------------------------------------------------------------------------
(* delta_pressure: layers bounded by midpoints, model top and surface.       *)
(* P increases downwards.                                                    *)
Mid(P, j) == RDiv(RAdd(P[j], P[j + 1]), 2)
Thickness(P, sp, top) ==
    LET n == Len(P)
        up(j) == IF j = 1 THEN top ELSE Mid(P, j - 1)
        there(j) == j = 1 \/ RLt(Mid(P, j - 1), sp)
        low(j) == IF j < n /\ there(j + 1) THEN Mid(P, j) ELSE sp
    IN [j \in 1..n |-> IF there(j) THEN RSub(low(j), up(j)) ELSE RNaN]
ThicknessOf(P, sp, top) ==                \* P in either order
    IF RLt(P[1], P[2]) THEN Thickness(P, sp, top)
    ELSE LET n == Len(P) D == TLCEval(Thickness([j \in 1..n |-> P[n + 1 - j]], sp, top))
         IN [j \in 1..n |-> D[n + 1 - j]]
MinOf(P) == P[Least(P, 1..Len(P))]

---------------------------------------------------------------------------
(* zonal_meridional_psi: sums of wind times thickness, from the top down.    *)
EarthRadius == 6378137
Gravity == "9.80665"
OrZero(x) == IF RIsNaN(x) THEN 0 ELSE x
StreamSum(P, V, sp) ==
    LET D == TLCEval(ThicknessOf(P, sp, MinOf(P)))
    IN TLCEval([k \in 1..Len(P) |->
          LET S == {j \in 1..Len(P) : RLe(P[j], P[k])} q == SetToSeqInt(S)
          IN RSum([i \in 1..Len(q) |-> OrZero(RMul(V[q[i]], D[q[i]]))])])
=============================================================================

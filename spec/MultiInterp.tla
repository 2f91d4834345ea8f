---------------------------- MODULE MultiInterp -----------------------------
(***************************************************************************)
(* Interpolation on a latitude-longitude grid.  An axis is a sequence P of *)
(* distinct coordinates in any order together with the sequence I of the   *)
(* grid indices they stand for; a cyclic axis repeats its ends one turn    *)
(* away.                                                                   *)
(***************************************************************************)
EXTENDS Vertical

MaxPos(P) == Greatest(P, 1..Len(P))
MinPos(P) == Least(P, 1..Len(P))
AxisPts(C, cyclic) ==
    LET n == Len(C) id == [k \in 1..n |-> k]
    IN IF ~cyclic THEN [p |-> C, i |-> id]
       ELSE [p |-> C \o <<RSub(C[MaxPos(C)], 360), RAdd(C[MinPos(C)], 360)>>,
             i |-> id \o <<MaxPos(C), MinPos(C)>>]
(* The points around q: positions a, b and the weight of b; "out" outside.   *)
Bracket(P, q, extrap) ==
    LET A == Above(P, q) B == Below(P, q)
        cell(a, b) == [out |-> FALSE, a |-> a, b |-> b, w |-> IF a = b THEN 0 ELSE RDiv(RSub(q, P[a]), RSub(P[b], P[a]))]
    IN IF A # {} /\ B # {} THEN cell(Greatest(P, A), Least(P, B))
       ELSE IF ~extrap THEN [out |-> TRUE, a |-> 1, b |-> 1, w |-> 0]
       ELSE IF A = {} THEN LET a == MinPos(P) IN cell(a, Least(P, (1..Len(P)) \ {a}))
       ELSE LET b == MaxPos(P) IN cell(Greatest(P, (1..Len(P)) \ {b}), b)
(* F(i, j) is the datum at latitude i and longitude j.                       *)
Bilinear(F(_, _), y, Iy, x, Ix) ==
    LET g(i, j) == F(Iy[i], Ix[j])
        row(i) == IF x.a = x.b THEN g(i, x.a)
                  ELSE RAdd(RMul(RSub(1, x.w), g(i, x.a)), RMul(x.w, g(i, x.b)))
    IN IF y.a = y.b THEN row(y.a) ELSE RAdd(RMul(RSub(1, y.w), row(y.a)), RMul(y.w, row(y.b)))
(* The grid positions nearest to q (two in a tie; rel: what counts as one).  *)
Nearest(P, q, rel) ==
    LET d(k) == RAbs(RSub(P[k], q)) m == CHOOSE k \in 1..Len(P) : \A j \in 1..Len(P) : RLe(d(k), d(j))
    IN {k \in 1..Len(P) : RLe(d(k), RAdd(d(m), RMul(rel, RMax(1, RAbs(q)))))}
(* positions next to k, k included                                            *)
Around(P, k) ==
    LET up == {j \in 1..Len(P) : RLt(P[k], P[j])} dn == {j \in 1..Len(P) : RLt(P[j], P[k])}
    IN {k} \union (IF up = {} THEN {} ELSE {Least(P, up)}) \union (IF dn = {} THEN {} ELSE {Greatest(P, dn)})
=============================================================================

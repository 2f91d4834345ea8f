------------------------------ MODULE Gradient ------------------------------
(***************************************************************************)
(* Finite differences on the WGS84 ellipsoid.  Latitudes and longitudes in *)
(* degrees, distances in metres.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, Arrays, TLC
SemiMajor == 6378137
SemiMinor == "6356752.314245179"
Radius(lat) ==
    LET p == RDeg2Rad(lat) c == RMul(SemiMajor, RCos(p)) s == RMul(SemiMinor, RSin(p))
    IN RSqrt(RAdd(RMul(c, c), RMul(s, s)))
(* The integral of the radius from latitude l1 to l2: 5-point Gauss-Legendre *)
(* quadrature on pieces of at most 20 degrees.                               *)
Node == <<0, "0.53846931010568309103631442070020880497", "-0.53846931010568309103631442070020880497",
          "0.90617984593866399279762687829939296513", "-0.90617984593866399279762687829939296513">>
Weight == <<"0.56888888888888888888888888888888888889", "0.47862867049936646804129151483563819291", "0.47862867049936646804129151483563819291",
            "0.23692688505618908751426404071991736264", "0.23692688505618908751426404071991736264">>
Piece(l1, l2) ==
    LET mid == RDiv(RAdd(l1, l2), 2) half == RDiv(RSub(l2, l1), 2)
    IN RMul(RDeg2Rad(half), RDot(Weight, [k \in 1..5 |-> Radius(RAdd(mid, RMul(half, Node[k])))]))
PieceCount(l1, l2) ==
    CHOOSE n \in 1..10 : /\ RLe(RAbs(RSub(l2, l1)), 20 * n)
                         /\ (n > 1 => RLt(20 * (n - 1), RAbs(RSub(l2, l1))))
ArcLat(l1, l2) ==
    LET n == PieceCount(l1, l2) at(k) == RAdd(l1, RDiv(RMul(k, RSub(l2, l1)), n))
    IN RSum([k \in 1..n |-> Piece(at(k - 1), at(k))])
ArcLon(o1, o2, lat) == RMul(RMul(Radius(lat), RCos(RDeg2Rad(lat))), RDeg2Rad(RSub(o2, o1)))
(* The neighbours of point i of n between which the difference is taken.     *)
Lo(i) == IF i = 1 THEN 1 ELSE i - 1
Hi(i, n) == IF i = n THEN n ELSE i + 1
(* Slopes along a line: values f, distances d[i] from point Lo(i) to Hi(i).  *)
Slopes(f, d) == [i \in 1..Len(f) |-> RDiv(RSub(f[Hi(i, Len(f))], f[Lo(i)]), d[i])]
Spans(P, Dist(_, _)) == [i \in 1..Len(P) |-> Dist(P[Lo(i)], P[Hi(i, Len(P))])]
=============================================================================

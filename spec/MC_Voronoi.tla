----------------------------- MODULE MC_Voronoi -----------------------------
(***************************************************************************)
(* Points put on the sphere one by one: the directions of the axes and the *)
(* corners of the cube (many of them on common circles), and one that is   *)
(* on none.                                                                *)
(***************************************************************************)
EXTENDS Spherical, TraceIO, IOUtils
CONSTANTS MaxPoints, Pool
VARIABLES pts
Q == RMul("0.25", RPi)
Corner == RAcos(RSqrt(RDiv(1, 3)))
Angles == <<<<0, 0>>, <<0, 4>>, <<0, 2>>, <<2, 2>>, <<4, 2>>, <<6, 2>>,           \* axes: theta, phi in quarter turns / 2
            <<1, 10>>, <<3, 10>>, <<5, 10>>, <<7, 10>>, <<1, 30>>, <<3, 30>>, <<5, 30>>, <<7, 30>>, <<3, 20>>>>
Theta(i) == RMul(Q, Angles[i][1])
Phi(i) == CASE Angles[i][2] = 10 -> Corner [] Angles[i][2] = 30 -> RSub(RPi, Corner) [] Angles[i][2] = 20 -> "1.3" [] OTHER -> RMul(Q, Angles[i][2])
All == TLCEval([i \in 1..15 |-> Vec(Theta(i), Phi(i))])
V(s) == TLCEval([k \in 1..Len(s) |-> All[s[k]]])
Cells(s) == LET W == V(s) IN TLCEval([k \in 1..Len(s) |-> Cell(W, k)])
Init == pts \in {<<1, 2, 3, 4, 5, 6>>, <<7, 8, 9, 10, 11, 12, 13, 14>>}
                \union {<<a, b, c, d>> : a, b, c, d \in Pool} /\ \A i, j \in 1..Len(pts) : i < j => pts[i] < pts[j]
Next == \E i \in Pool : Len(pts) < MaxPoints /\ i > pts[Len(pts)] /\ pts' = Append(pts, i)
Spec == Init /\ [][Next]_pts
Whole == RMul(4, RPi)
Near(x, y) == Within(x, y, "1e-25")
TileInv == Surrounds(V(pts)) => LET c == Cells(pts) IN
    Near(RSum(c), Whole) /\ \A k \in 1..Len(c) : RLt(0, c[k])
ReverseInv == Surrounds(V(pts)) => LET c == Cells(pts) r == Cells([k \in 1..Len(pts) |-> pts[Len(pts) + 1 - k]]) IN
    \A k \in 1..Len(c) : Near(c[k], r[Len(pts) + 1 - k])
(* the last point took its cell from the others                              *)
ShrinkInv == (Len(pts) > 4 /\ Surrounds(V(pts)) /\ Surrounds(V(SubSeq(pts, 1, Len(pts) - 1)))) =>
    LET c == Cells(pts) b == Cells(SubSeq(pts, 1, Len(pts) - 1)) IN \A k \in 1..Len(b) : RLe(c[k], RAdd(b[k], "1e-25"))
RegularInv == pts \in {<<1, 2, 3, 4, 5, 6>>, <<7, 8, 9, 10, 11, 12, 13, 14>>, <<7, 9, 12, 14>>} =>
    \A k \in 1..Len(pts) : Near(Cells(pts)[k], RDiv(Whole, Len(pts)))
EmitCase == Surrounds(V(pts)) => Emit(IOEnv.VP_CASES, [kind |-> "voronoi", theta |-> [k \in 1..Len(pts) |-> RShow(Theta(pts[k]))],
                                                     phi |-> [k \in 1..Len(pts) |-> RShow(Phi(pts[k]))]])
=============================================================================

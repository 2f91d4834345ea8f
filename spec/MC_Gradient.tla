---------------------------- MODULE MC_Gradient -----------------------------
(***************************************************************************)
(* A walker along a meridian or a parallel that carries the last two       *)
(* points it passed and writes the slope of each point when it has seen    *)
(* its right-hand neighbour.  Compared with Slopes on every small line.    *)
(***************************************************************************)
EXTENDS Gradient, TraceIO, IOUtils
CONSTANTS MaxN, Steps
VARIABLES P, f, dir, at, out
v == <<P, f, dir, at, out>>
Origin == {-60, -10, 10}
Dist(a, b) == IF dir = "lat" THEN ArcLat(a, b) ELSE ArcLon(a, b, 40)
RECURSIVE Walk(_, _)
Walk(a, st) == IF st = <<>> THEN <<a>> ELSE <<a>> \o Walk(a + Head(st), Tail(st))
Init == /\ \E n \in 2..MaxN, o \in Origin : \E st \in [1..(n - 1) -> Steps], up \in BOOLEAN :
              LET w == Walk(o, st) IN P = IF up THEN w ELSE [k \in 1..n |-> w[n + 1 - k]]
        /\ f \in [1..Len(P) -> 0..2] /\ f[1] = 1
        /\ dir \in {"lat", "lon"} /\ at = 2 /\ out = <<>>
Slope(i, j) == RKeep(RDiv(RSub(f[j], f[i]), Dist(P[i], P[j])))
Next == /\ at <= Len(P)
        /\ LET first == IF at = 2 THEN <<Slope(1, 2)>> ELSE <<>>
               mid == IF at > 2 THEN <<Slope(at - 2, at)>> ELSE <<>>
               last == IF at = Len(P) THEN <<Slope(at - 1, at)>> ELSE <<>>
           IN out' = out \o first \o mid \o last
        /\ at' = at + 1 /\ UNCHANGED <<P, f, dir>>
Spec == Init /\ [][Next]_v
Done == at > Len(P)
S == Slopes(f, Spans(P, Dist))
N == Len(P)
Near(x, y) == Within(x, y, "1e-20")
WalkInv == Done => Len(out) = N /\ \A i \in 1..N : Near(out[i], S[i])
ConstInv == (Done /\ \A i \in 1..N : f[i] = f[1]) => \A i \in 1..N : REq(S[i], 0)
ReverseInv == Done =>     \* the same line walked the other way round has the same slopes
    LET g == [i \in 1..N |-> f[N + 1 - i]] Q == [i \in 1..N |-> P[N + 1 - i]] T == Slopes(g, Spans(Q, Dist))
    IN \A i \in 1..N : Near(T[N + 1 - i], S[i])
DistanceInv == Done =>    \* the slope of the distance itself is 1
    LET T == Slopes([i \in 1..N |-> Dist(P[1], P[i])], Spans(P, Dist)) IN \A i \in 1..N : Within(T[i], 1, "1e-10")
LocalInv == Done => \A i \in 1..N :  \* a change two points away is not seen
    LET g == [f EXCEPT ![i] = 9] T == Slopes(g, Spans(P, Dist)) IN \A j \in 1..N : (j - i > 1 \/ i - j > 1) => REq(T[j], S[j])
(* the quadrature: additive, odd, and the closed form of the series          *)
ASSUME Within(ArcLat(0, 90), RAdd(ArcLat(0, 37), ArcLat(37, 90)), "1e-5")
ASSUME \A l \in {5, 25, 60, 85} : Within(ArcLat(0, l), RNeg(ArcLat(0, 0 - l)), "1e-20") /\ Within(ArcLat(l, 0), RNeg(ArcLat(0, l)), "1e-20")
ASSUME Within(ArcLat(0, 1), RPoly(<<0, "111319.490793273572647713", 0, "-0.0378342432436221402", 0, "2.29342105667605006614878e-06",
                                    0, "-6.52003144319804471773524e-11">>, 1), "1e-7")
ASSUME Within(Radius(0), SemiMajor, "1e-20") /\ Within(Radius(90), SemiMinor, "1e-20") /\ Within(Radius(-30), Radius(30), "1e-20")
EmitCase == (Done /\ dir = "lat" /\ \E i \in 2..N : f[i] = 2) => Emit(IOEnv.VP_CASES, [p |-> P])
=============================================================================

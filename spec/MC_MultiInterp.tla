--------------------------- MODULE MC_MultiInterp ---------------------------
(***************************************************************************)
(* A pointer going once around the globe in steps, over a longitude grid   *)
(* that need not close, and northwards over a latitude grid.  It carries   *)
(* the last grid meridian passed, the distance since then and the gap to   *)
(* the next one.  Checked against the definitions of module MultiInterp.   *)
(***************************************************************************)
EXTENDS MultiInterp, TraceIO, IOUtils
CONSTANTS LonGrid, MaxLon, StepLon, LatCounts, StepLat, Turns

VARIABLES lon, nlat,        \* the grid: longitudes (ascending), number of latitudes (spaced by 10 from -10)
          q, y,             \* pointer: longitude, latitude
          left, since, gap  \* grid index of the last meridian passed, distance from it, gap to the next
vars == <<lon, nlat, q, y, left, since, gap>>
N == Len(lon)
GapAfter(k) == IF k = N THEN lon[1] + 360 - lon[N] ELSE lon[k + 1] - lon[k]
Next1(k) == IF k = N THEN 1 ELSE k + 1
Lats == [k \in 1..nlat |-> 10 * k - 20]
Init == /\ \E S \in {S \in SUBSET LonGrid : Cardinality(S) \in 2..MaxLon} : lon = SetToSeqInt(S)
        /\ nlat \in LatCounts
        /\ q = lon[N] - 360 /\ y = -15 /\ left = N /\ since = 0 /\ gap = GapAfter(N)
East == /\ q + StepLon <= lon[1] + 360
        /\ q' = q + StepLon
        /\ IF since + StepLon < gap THEN since' = since + StepLon /\ UNCHANGED <<left, gap>>
           ELSE since' = since + StepLon - gap /\ left' = Next1(left) /\ gap' = GapAfter(Next1(left))
        /\ UNCHANGED <<lon, nlat, y>>
North == q = lon[N] - 360 + StepLon * Turns /\ y + StepLat <= Lats[nlat] + 5 /\ y' = y + StepLat
         /\ UNCHANGED <<lon, nlat, q, left, since, gap>>
Spec == Init /\ [][East \/ North]_vars

F(i, j) == i * i * 7 + j * j * 3 + i * j          \* a datum for every grid point
Same(a, b) == RLe(RAbs(RSub(a, b)), "1e-25")
X == AxisPts(lon, TRUE)
Bx == Bracket(X.p, q, FALSE)
LonInv ==       \* the cyclic bracket is the one carried along, and never empty
    /\ ~Bx.out
    /\ IF since = 0 THEN Bx.a = Bx.b /\ X.i[Bx.a] = left
       ELSE /\ X.i[Bx.a] = left /\ X.i[Bx.b] = Next1(left)
            /\ Same(RMul(Bx.w, gap), since)
PlainInv ==     \* without cyclic closing: the same inside the grid, nothing outside
    LET b == Bracket(lon, q, FALSE) IN
    IF q < lon[1] \/ q > lon[N] THEN b.out ELSE ~b.out /\ b.a = X.i[Bx.a] /\ b.b = X.i[Bx.b]
NearInv == \A k \in Nearest(X.p, q, "1e-12") :
    /\ X.i[k] \in {left, Next1(left)}
    /\ X.i[k] = left => 2 * since <= gap \/ N = 1
TheoremInv ==   \* bilinear fields are reproduced, inside and (extrapolating) outside
    LET P == Lats by == Bracket(P, y, TRUE) bx == Bracket(lon, q, TRUE)
        G(i, j) == 5 + 2 * Lats[i] - 3 * lon[j] + Lats[i] * lon[j]
        id == [k \in 1..20 |-> k]
    IN Same(Bilinear(G, by, id, bx, id), 5 + 2 * y - 3 * q + y * q)
BoundInv ==     \* a value between the smallest and the largest datum of the cell
    LET by == Bracket(Lats, y, FALSE) id == [k \in 1..20 |-> k] v == Bilinear(F, by, id, Bx, X.i) IN
    ~by.out => /\ \E i \in {by.a, by.b}, j \in {X.i[Bx.a], X.i[Bx.b]} : RLe(F(i, j), v)
               /\ \E i \in {by.a, by.b}, j \in {X.i[Bx.a], X.i[Bx.b]} : RLe(v, F(i, j))
EmitCase == (q = lon[1] + 360 /\ y = -15) =>
    Emit(IOEnv.VP_CASES, [kind |-> "globe", lon |-> lon, nlat |-> nlat, step |-> StepLon])
=============================================================================

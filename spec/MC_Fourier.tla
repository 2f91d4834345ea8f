----------------------------- MODULE MC_Fourier -----------------------------
(***************************************************************************)
(* A spectrum passing through a chain of filters.  Cutoffs are enumerated  *)
(* in half steps of the discrete frequencies (on them, between them and    *)
(* beyond the last one); "both" is one call with low and high pass set.    *)
(***************************************************************************)
EXTENDS Fourier, TraceIO, IOUtils
CONSTANTS MaxN, MaxCalls, KernelN
VARIABLES n, alive, hist
v == <<n, alive, hist>>
Down(c) == c \div 2
Up(c) == (c + 1) \div 2
Cuts == 0..(n + 3)
Cut(f) == Kept(n, f.op, Down(f.lo), Up(f.hi))
Call(f) == hist' = Append(hist, f) /\ alive' = alive \intersect Cut(f) /\ UNCHANGED n
Init == n \in 1..MaxN /\ alive = Bins(n) /\ hist = <<>>
Next == /\ Len(hist) < (IF n <= 5 THEN MaxCalls ELSE 1)
        /\ \/ \E c \in Cuts : Call([op |-> "low", lo |-> c, hi |-> 0])
           \/ \E c \in Cuts : Call([op |-> "high", lo |-> 0, hi |-> c])
           \/ \E c, d \in Cuts : c <= d + 2 /\ (Call([op |-> "pass", lo |-> c, hi |-> d]) \/ Call([op |-> "block", lo |-> c, hi |-> d]))
Spec == Init /\ [][Next]_v
Mirror(b) == IF b = 0 THEN 0 ELSE n - b
SymmetricInv == \A b \in alive : Mirror(b) \in alive            \* so that the result is real
HistInv == alive = {b \in Bins(n) : \A i \in 1..Len(hist) : b \in Cut(hist[i])}     \* order does not matter
ComplementInv == \A i \in 1..Len(hist) : LET f == hist[i] lo == Down(f.lo) hi == Up(f.hi) IN
    /\ BandPass(n, lo, hi) \union BandBlock(n, lo, hi) = Bins(n)
    /\ BandPass(n, lo, hi) = LowPass(n, hi) \intersect HighPass(n, lo)
    /\ LowPass(n, lo) \union HighPass(n, lo) = Bins(n) /\ LowPass(n, lo) \intersect HighPass(n, lo) = {}
    /\ \A k \in 0..n : LowPass(n, k) \subseteq LowPass(n, k + 1) /\ HighPass(n, k + 1) \subseteq HighPass(n, k)
MeanInv == \A i \in 1..Len(hist) : LET f == hist[i] IN      \* low pass keeps the mean, high pass removes it
    /\ (f.op = "low" /\ f.lo >= 2) => 0 \in Cut(f)
    /\ (f.op = "high" /\ f.hi >= 1) => 0 \notin Cut(f)
(* The filter is a projection: its kernel convolved with itself is itself,   *)
(* and kernels of disjoint sets add.                                         *)
KernelInv == (n <= KernelN /\ Len(hist) <= 1) =>
    LET h == Kernel(n, alive) g == Kernel(n, Bins(n) \ alive)
        x == [i \in 1..n |-> h[i - 1]] IN
    LET y == Filtered(x, h) IN
    \A t \in 1..n : /\ Within(y[t], x[t], "1e-25")
                    /\ Within(RAdd(h[t - 1], g[t - 1]), IF t = 1 THEN 1 ELSE 0, "1e-25")
EmitCase == hist # <<>> => Emit(IOEnv.VP_CASES, [n |-> n, calls |-> hist])
=============================================================================

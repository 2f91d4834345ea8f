------------------------------ MODULE Fourier -------------------------------
(***************************************************************************)
(* Ideal filters of a real series of n samples.  Bin b in 0..n-1 of its    *)
(* discrete spectrum holds the discrete frequency Harm(n, b) = min(b, n-b) *)
(* (in units of sampling frequency / n); a filter keeps a set of bins.     *)
(* lo and hi are the cutoffs as frequency indices: the cutoff rounded down *)
(* for lo, rounded up for hi.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, Arrays, TLC
Harm(n, b) == IF 2 * b <= n THEN b ELSE n - b
Bins(n) == 0..(n - 1)
LowPass(n, lo) == {b \in Bins(n) : Harm(n, b) < lo}
HighPass(n, hi) == {b \in Bins(n) : Harm(n, b) >= hi}
BandPass(n, lo, hi) == {b \in Bins(n) : lo <= Harm(n, b) /\ Harm(n, b) < hi}
BandBlock(n, lo, hi) == Bins(n) \ BandPass(n, lo, hi)
Kept(n, op, lo, hi) ==
    CASE op = "low" -> LowPass(n, lo) [] op = "high" -> HighPass(n, hi)
      [] op = "pass" -> BandPass(n, lo, hi) [] op = "block" -> BandBlock(n, lo, hi)
(* Keeping the bins K is circular convolution with Kernel(n, K).             *)
CosTable(n) == TLCEval([k \in 0..(n - 1) |-> RCos(RDiv(RMul(2 * k, RPi), n))])
Kernel(n, K) ==
    LET C == CosTable(n) q == SetToSeqInt(K)
    IN TLCEval([d \in 0..(n - 1) |-> RDiv(RSum([i \in 1..Len(q) |-> C[(q[i] * d) % n]]), n)])
Filtered(x, h) ==    \* x: series of n samples, h: kernel
    LET n == Len(x) IN [t \in 1..n |-> RDot(x, [s \in 1..n |-> h[(n + s - t) % n]])]
=============================================================================

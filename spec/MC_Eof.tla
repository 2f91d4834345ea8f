------------------------------- MODULE MC_Eof -------------------------------
(***************************************************************************)
(* EOFs of two variables by deflation: the leading eigenpair of the 2 x 2  *)
(* covariance matrix in closed form is taken out, then the second one.     *)
(***************************************************************************)
EXTENDS Stats, TraceIO, IOUtils
CONSTANTS MaxTimes, Vals
VARIABLES X, ddof, rest, L, E
v == <<X, ddof, rest, L, E>>
Keep2(C) == [i \in 1..2 |-> [j \in 1..2 |-> RKeep(C[i][j])]]
Init == /\ \E n \in 3..MaxTimes : X \in [1..n -> [1..2 -> Vals]]
        /\ X[1][1] = 0 /\ \E t \in 2..Len(X) : X[t] # X[1]
        /\ ddof \in {0, 1} /\ rest = Keep2(Covariance(Centred(X), ddof)) /\ L = <<>> /\ E = <<>>
(* eigenpair of the larger eigenvalue of [[p, q], [q, r]]                    *)
Top(C) ==
    LET p == C[1][1] q == C[1][2] r == C[2][2] h == RDiv(RSub(p, r), 2) s == RSqrt(RAdd(RMul(h, h), RMul(q, q)))
        l == RAdd(RDiv(RAdd(p, r), 2), s)
        ang == RDiv(RAtan2(RMul(2, q), RSub(p, r)), 2)
    IN [l |-> RKeep(l), e |-> <<RKeep(RCos(ang)), RKeep(RSin(ang))>>]
Small == RMul("1e-20", Trace(Covariance(Centred(X), ddof)))
Next == /\ Len(L) < 2
        /\ LET t == IF L = <<>> THEN Top(rest) ELSE [l |-> RKeep(Trace(rest)), e |-> <<RKeep(RNeg(E[1][2])), RKeep(E[1][1])>>] IN
           L' = Append(L, t.l) /\ E' = Append(E, t.e) /\ rest' = Keep2(Deflate(rest, t.l, t.e))
        /\ UNCHANGED <<X, ddof>>
Spec == Init /\ [][Next]_v
C0 == Covariance(Centred(X), ddof)
LeadingInv == L # <<>> => Orthonormal(E, "1e-25") /\ Leading(C0, L, E, "1e-25")
NotLessInv == Len(L) = 2 =>   \* what is not leading is rejected
    (RLt(RAdd(L[2], RMul("0.01", L[1])), L[1]) => ~Leading(C0, <<L[2]>>, <<E[2]>>, "1e-10"))
TraceInv == Within(RAdd(RSum(L), Trace(rest)), Trace(C0), Small)
(* projections: uncorrelated, variance L, and together they give the data back *)
PcInv == Len(L) = 2 =>
    LET D == Centred(X) n == Len(X)
        P == [k \in 1..2 |-> TLCEval([t \in 1..n |-> RDot(D[t], E[k])])]
    IN /\ Within(RDot(P[1], P[2]), 0, Small)
       /\ \A k \in 1..2 : Within(RDiv(RDot(P[k], P[k]), n - ddof), L[k], Small)
       /\ \A t \in 1..n, j \in 1..2 : Within(RAdd(RMul(P[1][t], E[1][j]), RMul(P[2][t], E[2][j])), D[t][j], "1e-25")
EmitCase == Len(L) = 2 => Emit(IOEnv.VP_CASES, [kind |-> "eof", x |-> X, ddof |-> ddof])
=============================================================================

----------------------------- MODULE MC_Seasons -----------------------------
(***************************************************************************)
(* A window of three months sliding over monthly data with gaps.  When a   *)
(* month arrives, the window around the month before it is complete, and   *)
(* its count and sum are noted.  Compared with the definitions of          *)
(* month_to_season for all twelve seasons.                                 *)
(***************************************************************************)
EXTENDS Climatology, TraceIO, IOUtils, TLC
CONSTANTS N, MaxGaps, Cals
VARIABLES cal, m0, gaps, n, win, W     \* n months so far, win: the last three (0: none)
vars == <<cal, m0, gaps, n, win, W>>

Value(i) == i * i + 1
Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RLe(RAbs(a (-) b), "1e-30")
Noted(w, g) == LET s == SelectSeq(w, LAMBDA i : i # 0 /\ i \notin g)
                   v(i) == IF i <= Len(s) THEN Value(s[i]) ELSE 0
               IN <<Len(s), v(1) + v(2) + v(3)>>
Init == cal \in Cals /\ m0 \in 1..12 /\ gaps = {} /\ n = 0 /\ win = <<0, 0, 0>> /\ W = <<>>
Month(gone) ==
    /\ n < N /\ n' = n + 1 /\ UNCHANGED <<cal, m0>>
    /\ gaps' = (IF gone THEN gaps \union {n + 1} ELSE gaps)
    /\ win' = <<win[2], win[3], n + 1>>
    /\ W' = (IF n = 0 THEN W ELSE Append(W, Noted(win', gaps')))
End == /\ n = N /\ n' = N + 1 /\ UNCHANGED <<cal, m0, gaps>>
       /\ win' = <<win[2], win[3], 0>> /\ W' = Append(W, Noted(win', gaps))
Next == Month(FALSE) \/ (Cardinality(gaps) < MaxGaps /\ Month(TRUE)) \/ End
Spec == Init /\ [][Next]_vars

Done == n = N + 1
First0 == 12 * 1999 + m0 - 1
T == TLCEval([i \in 1..N |-> <<(First0 + i - 1) \div 12, ((First0 + i - 1) % 12) + 1, 15, 0, 0, 0>>])
X == TLCEval([i \in 1..N |-> IF i \in gaps THEN RNaN ELSE Value(i)])
Seasons == DOMAIN SeasonMonths
SeasonInv == Done =>
    LET GM == FineGroups("month", cal, T) IN
    /\ Len(W) = N
    /\ \A s \in Seasons : LET C == TLCEval(Centres(s, T)) IN
         /\ N % 12 = 0 => Len(C) = N \div 12
         /\ \A j \in 2..Len(C) : C[j] = C[j - 1] + 12
         /\ \A j \in 1..Len(C) :
              LET w == W[C[j] - First0 + 1] y == ThreeMonths(GM, X, C[j]) IN
              IF w[1] = 0 THEN RIsNaN(y) ELSE Same(y, RDiv(w[2], w[1]))
(* every month is the centre of one season and nothing else                   *)
CentreInv == Done =>
    /\ UNION {Elems(Centres(s, T)) : s \in Seasons} = First0..(First0 + N - 1)
    /\ \A s, t \in Seasons : s # t => Elems(Centres(s, T)) \cap Elems(Centres(t, T)) = {}
(* the four quarters use every month once, but for the ends whose centre is outside *)
Quarters == {"DJF", "MAM", "JJA", "SON"}
QuarterInv == Done =>
    LET C == UNION {Elems(Centres(s, T)) : s \in Quarters}
        in == {i \in 1..N : i \notin gaps /\ {First0 + i - 2, First0 + i - 1, First0 + i} \cap C # {}}
        q == SetToSeqInt(C)
    IN Same(RSum([j \in 1..Len(q) |-> W[q[j] - First0 + 1][1]]), Cardinality(in))
EmitCase == Done => Emit(IOEnv.VP_CASES,
    [kind |-> "seasons", cal |-> cal, stamps |-> T, present |-> [i \in 1..N |-> i \notin gaps]])
=============================================================================

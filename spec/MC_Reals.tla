------------------------------- MODULE MC_Reals -----------------------------
(* Binds the native reals to their definitions: on a small integer range    *)
(* every operator agrees with the TLA+ body, and the elementary functions   *)
(* satisfy the identities that pin them down to ~38 digits.                 *)
EXTENDS Reals, TLC

CONSTANT N
VARIABLES a, b, c, q

Rng == (0 - N) .. N
Init == a \in Rng /\ b \in Rng /\ c \in Rng /\ q = 0
Next == UNCHANGED <<a, b, c, q>>
Spec == Init /\ [][Next]_<<a, b, c, q>>

I(x) == CHOOSE k \in (0 - N * N * N - 10) .. (N * N * N + 10) : REq(k, x)
Tiny(x) == RLe(RAbs(x), "1e-36")

Ints ==
    /\ REq(RAdd(a, b), a + b)
    /\ REq(RSub(a, b), a - b)
    /\ REq(RMul(a, RMul(b, c)), a * b * c)
    /\ REq(RNeg(a), 0 - a)
    /\ REq(RAbs(a), IF a < 0 THEN 0 - a ELSE a)
    /\ (RLt(a, b) <=> a < b) /\ (RLe(a, b) <=> a <= b) /\ (REq(a, b) <=> a = b)
    /\ REq(RMin(a, b), IF a < b THEN a ELSE b)
    /\ REq(RMax(a, b), IF a < b THEN b ELSE a)
    /\ RFloor(a) = a /\ RCeil(a) = a
    /\ REq(RSum(<<a, b, c>>), a + b + c)
    /\ REq(RDot(<<a, b>>, <<b, c>>), a * b + b * c)
    /\ REq(RPoly(<<a, b, c>>, 2), a + 2 * b + 4 * c)
    /\ REq(RMaxAbs(<<a, b>>), RMax(RAbs(a), RAbs(b)))
    /\ (b # 0 => Tiny(RMul(RDiv(a, b), b) (-) a))
    /\ (b # 0 => RFloor(RDiv(a, b)) = (IF b > 0 THEN a ELSE 0 - a) \div (IF b > 0 THEN b ELSE 0 - b))

X == RDiv(RAdd(a, RDiv(b, 10)), 3)
Y == RDiv(c, 7)
Elementary ==
    /\ Tiny(RDiv(RExp(X (+) Y), RExp(X) (.) RExp(Y)) (-) 1)
    /\ Tiny(RLn(RExp(X)) (-) X)
    /\ Tiny((RSin(X) (.) RSin(X)) (+) (RCos(X) (.) RCos(X)) (-) 1)
    /\ Tiny(RSin(X (+) Y) (-) ((RSin(X) (.) RCos(Y)) (+) (RCos(X) (.) RSin(Y))))
    /\ Tiny(RCos(X (+) Y) (-) ((RCos(X) (.) RCos(Y)) (-) (RSin(X) (.) RSin(Y))))
    /\ Tiny(RTan(RAtan(X)) (-) X)
    /\ Tiny(RSin(RAsin(RSin(X))) (-) RSin(X))
    /\ Tiny(RCos(RAcos(RCos(X))) (-) RCos(X))
    /\ Tiny(RSqrt(RAbs(X)) (.) RSqrt(RAbs(X)) (-) RAbs(X))
    /\ Tiny((RCos(RAtan2(X, Y)) (.) RSqrt((X (.) X) (+) (Y (.) Y))) (-) Y)
    /\ Tiny((RSin(RAtan2(X, Y)) (.) RSqrt((X (.) X) (+) (Y (.) Y))) (-) X)
    /\ Tiny(RPow(RAdd(RAbs(X), 1), "2.5") (-) RSqrt(RPow(RAdd(RAbs(X), 1), 5)))
    /\ REq(RDouble("0.1"), RDouble("0.1000000000000000055511151231257827"))
    /\ Tiny(RSin(RDiv(RPi, 6)) (-) "0.5")
    /\ Tiny(RExp(1) (-) "2.71828182845904523536028747135266249775724709")
    /\ Tiny(RPi (-) "3.14159265358979323846264338327950288419716940")
    /\ Tiny(RLn(10) (-) "2.30258509299404568401799145468436420760110149")
    /\ Tiny(RExp("-3.7") (-) "0.0247235264703393912027573829834026293445050703")
=============================================================================

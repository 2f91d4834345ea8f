------------------------------- MODULE Reals --------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is an opaque value.  Integers and decimal *)
(* strings ("0.0065") are accepted wherever a real is expected; numbers    *)
(* recorded from the implementation are IEEE doubles and enter exactly.    *)
(*                                                                         *)
(* The bodies below give the meaning of the operators on integers; TLC     *)
(* evaluates the native 40-digit decimal versions in java/vp, which agree  *)
(* with them (module MC_Reals checks that, and the algebraic laws).        *)
(*                                                                         *)
(* NaN is a value: every arithmetic operator propagates it and every       *)
(* comparison with it is FALSE.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

RNum(x) == x
RAdd(x, y) == x + y
RSub(x, y) == x - y
RMul(x, y) == x * y
RDiv(x, y) == CHOOSE q \in Int : q * y = x
RNeg(x) == 0 - x
RAbs(x) == IF x < 0 THEN 0 - x ELSE x
RLt(x, y) == x < y
RLe(x, y) == x <= y
REq(x, y) == x = y
RIsNaN(x) == x # x
RIsFinite(x) == x \in Int
RMin(x, y) == IF x <= y THEN x ELSE y
RMax(x, y) == IF x >= y THEN x ELSE y
RFloor(x) == x          \* the integer below
RCeil(x) == x           \* the integer above

(* Elementary functions: no integer meaning; defined by the override only. *)
RSqrt(x) == CHOOSE r \in Int : r * r = x
RExp(x) == CHOOSE r \in Int : FALSE
RLn(x) == CHOOSE r \in Int : FALSE
RSin(x) == CHOOSE r \in Int : FALSE
RCos(x) == CHOOSE r \in Int : FALSE
RTan(x) == CHOOSE r \in Int : FALSE
RAtan(x) == CHOOSE r \in Int : FALSE
RAtan2(y, x) == CHOOSE r \in Int : FALSE
RAsin(x) == CHOOSE r \in Int : FALSE
RAcos(x) == CHOOSE r \in Int : FALSE
RPi == CHOOSE r \in Int : FALSE
RPow(x, k) == x ^ k
RNaN == CHOOSE r \in {} : TRUE     \* the missing value
RKeep(x) == x           \* the form in which a real is kept in a variable
RShow(x) == ""          \* decimal text, for reports
RDouble(x) == x         \* nearest IEEE double

RECURSIVE RSum(_), RDot(_, _), RMaxAbs(_), RPoly(_, _)
RSum(s) == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, u) == IF s = <<>> THEN 0
              ELSE RAdd(RMul(Head(s), Head(u)), RDot(Tail(s), Tail(u)))
RMaxAbs(s) == IF s = <<>> THEN 0 ELSE RMax(RAbs(Head(s)), RMaxAbs(Tail(s)))
RPoly(c, x) == IF c = <<>> THEN 0 ELSE RAdd(Head(c), RMul(x, RPoly(Tail(c), x)))

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b == RLt(a, b)
a \succeq b == RLe(b, a)
a \succ b == RLt(b, a)

RMean(s) == RDiv(RSum(s), Len(s))
RDeg2Rad(x) == RDiv(RMul(x, RPi), 180)

(* |x - y| <= tol, where equal infinities and two NaNs also agree.          *)
Within(x, y, tol) ==
    \/ RIsNaN(x) /\ RIsNaN(y)
    \/ REq(x, y)
    \/ RIsFinite(x) /\ RIsFinite(y) /\ RLe(RAbs(RSub(x, y)), tol)

(* Agreement to a relative tolerance, against a scale no smaller than `floor' *)
Close(x, y, rtol, floor) ==
    Within(x, y, RMul(rtol, RMax(floor, RMax(IF RIsFinite(x) THEN RAbs(x) ELSE 0,
                                            IF RIsFinite(y) THEN RAbs(y) ELSE 0))))
=============================================================================

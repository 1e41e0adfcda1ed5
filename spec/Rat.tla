------------------------------- MODULE Rat -------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The definitions below give the meaning of every operator on reduced     *)
(* pairs <<numerator, denominator>>.  TLC evaluates them through the Java  *)
(* class Rat (spec/java/Rat.java, same names), because TLC's integers have *)
(* 32 bits and the numbers here are IEEE doubles and exact combinations of *)
(* them.  RStr reads a number the implementation printed: a C hexadecimal  *)
(* floating literal ("0x1.8p-3"), a decimal number or "n/d"; "nan" and     *)
(* "inf" give NotANumber, which is not comparable with anything and        *)
(* propagates.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LOCAL Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                        q == GCD(Abs(n), Abs(d))
                    IN  <<(s * n) \div q, (s * d) \div q>>

NotANumber == <<0, 0>>
RIsNum(a)  == a # NotANumber

RStr(s)    == CHOOSE r \in Int \X Int : TRUE        \* overridden
RShow(a)   == CHOOSE s \in STRING : TRUE            \* overridden
RInt(n)    == <<n, 1>>
RFrac(n,d) == Norm(n, d)
RAdd(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == Norm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Norm(a[1] * b[2], a[2] * b[1])
RNeg(a)    == <<-a[1], a[2]>>
RAbs(a)    == <<Abs(a[1]), a[2]>>
RLt(a, b)  == RIsNum(a) /\ RIsNum(b) /\ a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == RIsNum(a) /\ RIsNum(b) /\ a[1] * b[2] <= b[1] * a[2]
REq(a, b)  == RIsNum(a) /\ RIsNum(b) /\ a[1] * b[2] = b[1] * a[2]
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
\* Largest integer not above a.
RFloor(a)  == a[1] \div a[2]
\* 2^n for any integer n
RPow2(n)   == IF n >= 0 THEN <<2^n, 1>> ELSE <<1, 2^(-n)>>

\* Sum of a sequence of rationals, and of the products of two sequences.
RECURSIVE RSum(_)
RSum(s)    == IF s = << >> THEN RInt(0) ELSE RAdd(s[1], RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(s, t) == IF s = << >> THEN RInt(0) ELSE RAdd(RMul(s[1], t[1]), RDot(Tail(s), Tail(t)))

\* a rounded to the nearest multiple of 2^-k
RRound(a, k) == RDiv(RInt(RFloor(RAdd(RMul(a, RPow2(k)), RFrac(1, 2)))), RPow2(k))
\* sin(pi a), cos(pi a) and exp(a), to within 2^-90 of their size or of 1 (overridden)
RSinPi(a)  == CHOOSE r \in Int \X Int : TRUE
RCosPi(a)  == CHOOSE r \in Int \X Int : TRUE
RExp(a)    == CHOOSE r \in Int \X Int : TRUE

\* |a - b| <= t
RNear(a, b, t) == RIsNum(a) /\ RIsNum(b) /\ RIsNum(t) /\ RLe(RAbs(RSub(a, b)), t)

\* A sequence of sequences of printed numbers, read element-wise.
RArr(raw)  == [o \in DOMAIN raw |-> [c \in DOMAIN raw[o] |-> RStr(raw[o][c])]]
RArrRound(raw, k) == [o \in DOMAIN raw |-> [c \in DOMAIN raw[o] |-> RRound(RStr(raw[o][c]), k)]]
RVec(raw)  == [c \in DOMAIN raw |-> RStr(raw[c])]
=============================================================================

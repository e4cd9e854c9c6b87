-------------------------------- MODULE RatDef --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for specifications of numeric code.           *)
(*                                                                         *)
(* A rational is the normalised record [n |-> numerator, d |-> denominator *)
(* > 0].  Module Rat names these operators for everybody else.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL RAbsI(i) == IF i < 0 THEN -i ELSE i
RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)

(* the rational n/d, d # 0 *)
RQ(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                g == RGcd(RAbsI(n), RAbsI(d))
            IN  [n |-> (s * n) \div g, d |-> (s * d) \div g]
R(n) == [n |-> n, d |-> 1]

RAdd(a, b) == RQ(a.n * b.d + b.n * a.d, a.d * b.d)
RSub(a, b) == RQ(a.n * b.d - b.n * a.d, a.d * b.d)
RMul(a, b) == RQ(a.n * b.n, a.d * b.d)
RDiv(a, b) == RQ(a.n * b.d, a.d * b.n)
RNeg(a) == [n |-> -a.n, d |-> a.d]
RAbs(a) == [n |-> RAbsI(a.n), d |-> a.d]
RLe(a, b) == a.n * b.d <= b.n * a.d
RLt(a, b) == a.n * b.d < b.n * a.d
REq(a, b) == a.n * b.d = b.n * a.d
RSign(a) == IF a.n < 0 THEN -1 ELSE IF a.n = 0 THEN 0 ELSE 1
RFloor(a) == R(a.n \div a.d)
(* a rational that is an integer in TLC's range, as that integer *)
RToInt(a) == a.n \div a.d

RECURSIVE RSumTo(_, _)
RSumTo(s, i) == IF i = 0 THEN R(0) ELSE RAdd(RSumTo(s, i - 1), s[i])
RSum(s) == RSumTo(s, Len(s))
RECURSIVE RDotTo(_, _, _)
RDotTo(s, t, i) == IF i = 0 THEN R(0) ELSE RAdd(RDotTo(s, t, i - 1), RMul(s[i], t[i]))
RDot(s, t) == RDotTo(s, t, Len(s))

(* 2^k for an integer k of either sign *)
RECURSIVE RPow2(_)
RPow2(k) == IF k = 0 THEN R(1)
            ELSE IF k > 0 THEN RMul(R(2), RPow2(k - 1))
            ELSE RDiv(RPow2(k + 1), R(2))
(* the greatest multiple of 2^-b that is not above a *)
RRnd(a, b) == RMul(RFloor(RMul(a, RPow2(b))), RPow2(-b))
(* the greatest multiple of 2^-b whose square is not above a >= 0 *)
RECURSIVE RSqrtFrom(_, _, _)
RSqrtFrom(a, b, k) ==
  LET c == RMul(R(k + 1), RPow2(-b))
  IN  IF RLe(RMul(c, c), a) THEN RSqrtFrom(a, b, k + 1) ELSE RMul(R(k), RPow2(-b))
RSqrt(a, b) == RSqrtFrom(a, b, 0)

(* The rational a literal stands for: a decimal integer, "n/d" or a C99    *)
(* hexadecimal floating-point number.  Only in the Java class.             *)
RX(s) == Assert(FALSE, "RX needs the Java class Rat")
(* whether a logged double is a finite number: not "nan", "inf" or "-inf"  *)
RIsFinite(s) == s \notin {"nan", "-nan", "inf", "-inf"}
(* a rational as the literal RX reads *)
RStr(a) == IF a.d = 1 THEN ToString(a.n) ELSE ToString(a.n) \o "/" \o ToString(a.d)

(* Force(v) = v; TLC computes the value once, fully, instead of lazily. *)
Force(v) == v
=============================================================================

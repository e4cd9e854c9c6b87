-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for specifications of numeric code.           *)
(*                                                                         *)
(* RatDef holds the meaning of every operator on records of two integers.  *)
(* TLC's integers have 32 bits, so TLC replaces the operators of this      *)
(* module by the Java class Rat (java/Rat.java), which computes the same   *)
(* functions with unbounded integers.  RatCheck.tla compares the two on    *)
(* every rational of a small range.                                        *)
(*                                                                         *)
(* IEEE doubles are dyadic rationals, so what the implementation returns   *)
(* is read here without any rounding (RX of a C "%a" literal).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL D == INSTANCE RatDef

RQ(n, d) == D!RQ(n, d)
R(n) == D!R(n)
RAdd(a, b) == D!RAdd(a, b)
RSub(a, b) == D!RSub(a, b)
RMul(a, b) == D!RMul(a, b)
RDiv(a, b) == D!RDiv(a, b)
RNeg(a) == D!RNeg(a)
RAbs(a) == D!RAbs(a)
RLe(a, b) == D!RLe(a, b)
RLt(a, b) == D!RLt(a, b)
REq(a, b) == D!REq(a, b)
RSign(a) == D!RSign(a)
RFloor(a) == D!RFloor(a)
RToInt(a) == D!RToInt(a)
RSum(s) == D!RSum(s)
RDot(s, t) == D!RDot(s, t)
RPow2(k) == D!RPow2(k)
RRnd(a, b) == D!RRnd(a, b)
RSqrt(a, b) == D!RSqrt(a, b)
RX(s) == D!RX(s)
RIsFinite(s) == D!RIsFinite(s)
RStr(a) == D!RStr(a)
Force(v) == D!Force(v)
=============================================================================

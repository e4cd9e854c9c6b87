------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Elementary functions over the rationals, to a stated absolute accuracy: *)
(* F(x, b) differs from the true value by less than 2^-b (for exp of a     *)
(* positive argument: relative).  Each is its power series after an exact  *)
(* argument reduction, with every intermediate result rounded to a grid    *)
(* finer than the accuracy asked for.                                      *)
(***************************************************************************)
EXTENDS LinAlg

\* sum over k >= 0 of  t_k,  t_0 = t,  t_(k+1) = -+ t_k * y / (c(k)),  until terms vanish on the grid
RECURSIVE SerExp(_, _, _, _, _)
SerExp(s, t, x, k, g) ==
  IF RSign(t) = 0 THEN s
  ELSE SerExp(RAdd(s, t), Force(RRnd(RDiv(RMul(t, x), R(k)), g)), x, k + 1, g)
\* how many halvings bring |x| below 2^-4
RECURSIVE Halvings(_, _)
Halvings(x, k) == IF RLt(RAbs(x), RPow2(-4)) THEN k ELSE Halvings(RDiv(x, R(2)), k + 1)
RECURSIVE Squared(_, _, _)
Squared(v, k, g) == IF k = 0 THEN v ELSE Squared(Force(RRnd(RMul(v, v), g)), k - 1, g)
RExpPos(x, b) == LET k == Halvings(x, 0)
                     g == b + 2 * k + 12
                     y == RRnd(RMul(x, RPow2(-k)), g)
                 IN  Squared(SerExp(R(0), R(1), y, 1, g), k, g)
RExp(x, b) == IF RSign(x) >= 0 THEN Force(RExpPos(x, b))
              ELSE Force(RRnd(RDiv(R(1), RExpPos(RNeg(x), b)), 2 * b + 40))

\* <<sin x, cos x>>
RECURSIVE SerOdd(_, _, _, _, _)
SerOdd(s, t, y2, k, g) ==   \* t_(k+1) = - t_k y^2 / (k (k+1))
  IF RSign(t) = 0 \/ (RSign(t) < 0 /\ RLe(RAbs(t), RPow2(-g))) THEN s
  ELSE SerOdd(RAdd(s, t), Force(RRnd(RNeg(RDiv(RMul(t, y2), R(k * (k + 1)))), g)), y2, k + 2, g)
RECURSIVE Doubled(_, _, _, _)
Doubled(s, c, k, g) ==
  IF k = 0 THEN <<s, c>>
  ELSE Doubled(Force(RRnd(RMul(R(2), RMul(s, c)), g)), Force(RRnd(RSub(R(1), RMul(R(2), RMul(s, s))), g)), k - 1, g)
RSinCos(x, b) ==
  LET k == Halvings(x, 0)
      g == b + 3 * k + 12
      y == RRnd(RMul(x, RPow2(-k)), g)
      y2 == RRnd(RMul(y, y), g)
  IN  Force(Doubled(SerOdd(R(0), y, y2, 2, g), SerOdd(R(0), R(1), y2, 1, g), k, g))
RSin(x, b) == RSinCos(x, b)[1]
RCos(x, b) == RSinCos(x, b)[2]

\* atan t for |t| small: t - t^3/3 + ...; p is the current power (with sign)
RECURSIVE SerAtan(_, _, _, _, _)
SerAtan(s, p, y2, k, g) ==
  IF RSign(p) = 0 \/ RLe(RAbs(p), RPow2(-g)) THEN s
  ELSE SerAtan(RAdd(s, RDiv(p, R(k))), Force(RRnd(RNeg(RMul(p, y2)), g)), y2, k + 2, g)
\* atan t = 2 atan(t / (1 + sqrt(1 + t^2)))
RECURSIVE AtanRed(_, _, _)
AtanRed(t, g, k) ==
  IF RLt(RAbs(t), RPow2(-4)) THEN RMul(RPow2(k), SerAtan(R(0), t, RRnd(RMul(t, t), g), 1, g))
  ELSE AtanRed(Force(RRnd(RDiv(t, RAdd(R(1), RSqrt(RAdd(R(1), RMul(t, t)), g))), g)), g, k + 1)
RAtanSmall(t, b) == Force(RRnd(AtanRed(RRnd(t, b + 24), b + 24, 0), b + 4))
RPi(b) == Force(RMul(R(4), RAtanSmall(R(1), b + 4)))
RAtan(t, b) == IF RLe(RAbs(t), R(1)) THEN RAtanSmall(t, b)
               ELSE RSub(IF RSign(t) > 0 THEN RDiv(RPi(b + 2), R(2)) ELSE RNeg(RDiv(RPi(b + 2), R(2))),
                         RAtanSmall(RDiv(R(1), t), b))
RAtan2(y, x, b) ==
  IF RSign(x) > 0 THEN RAtan(RDiv(y, x), b)
  ELSE IF RSign(x) < 0 THEN (IF RSign(y) >= 0 THEN RAdd(RAtan(RDiv(y, x), b), RPi(b)) ELSE RSub(RAtan(RDiv(y, x), b), RPi(b)))
  ELSE IF RSign(y) > 0 THEN RDiv(RPi(b), R(2)) ELSE IF RSign(y) < 0 THEN RNeg(RDiv(RPi(b), R(2))) ELSE R(0)
RAsin(x, b) == RAtan2(x, RSqrt(RSub(R(1), RMul(x, x)), 2 * b), b)
RAcos(x, b) == RAtan2(RSqrt(RSub(R(1), RMul(x, x)), 2 * b), x, b)

\* ln x = k ln 2 + 2 atanh((m - 1) / (m + 1)), m = x / 2^k in [1, 2)
RECURSIVE SerAth(_, _, _, _, _)
SerAth(s, p, y2, k, g) ==
  IF RLe(RAbs(p), RPow2(-g)) THEN s
  ELSE SerAth(RAdd(s, RDiv(p, R(k))), Force(RRnd(RMul(p, y2), g)), y2, k + 2, g)
RLnNear(m, g) == LET y == RRnd(RDiv(RSub(m, R(1)), RAdd(m, R(1))), g) IN RMul(R(2), SerAth(R(0), y, RRnd(RMul(y, y), g), 1, g))
RLn2(g) == Force(RLnNear(R(2), g))
RECURSIVE LnRed(_, _, _)
LnRed(x, k, g) ==
  IF RLt(x, R(1)) THEN LnRed(RMul(x, R(2)), k - 1, g)
  ELSE IF RLe(R(2), x) THEN LnRed(RDiv(x, R(2)), k + 1, g)
  ELSE RAdd(RMul(R(k), RLn2(g)), RLnNear(x, g))
RLn(x, b) == Force(RRnd(LnRed(x, 0, b + 24), b + 4))
RSinh(x, b) == LET e == RExp(x, b + 4) IN RDiv(RSub(e, RDiv(R(1), e)), R(2))
RCosh(x, b) == LET e == RExp(x, b + 4) IN RDiv(RAdd(e, RDiv(R(1), e)), R(2))
=============================================================================

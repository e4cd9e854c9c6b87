------------------------------ MODULE RatCheck ------------------------------
(***************************************************************************)
(* The arithmetic every numeric specification stands on.  The Java class   *)
(* that evaluates Rat is compared with the definitions of RatDef on every  *)
(* pair of small rationals, the elementary functions of Exact with the     *)
(* functional equations that define them, to 2^-B.                         *)
(***************************************************************************)
EXTENDS Exact

CONSTANTS N,   \* numerators -N..N, denominators 1..N
          B

D == INSTANCE RatDef

VARIABLE q     \* <<numerator, denominator, numerator, denominator>>
vars == <<q>>
Init == q \in (-N..N) \X (1..N) \X (-N..N) \X (1..N)
Next == UNCHANGED q
Spec == Init /\ [][Next]_vars

a == RQ(q[1], q[2])
b == RQ(q[3], q[4])
da == D!RQ(q[1], q[2])
db == D!RQ(q[3], q[4])
\* the Java value is the rational of the definition
Same(x, d) == REq(RMul(x, R(d.d)), R(d.n))

Field == /\ Same(a, da) /\ Same(RAdd(a, b), D!RAdd(da, db)) /\ Same(RSub(a, b), D!RSub(da, db))
         /\ Same(RMul(a, b), D!RMul(da, db)) /\ (q[3] # 0 => Same(RDiv(a, b), D!RDiv(da, db)))
         /\ Same(RNeg(a), D!RNeg(da)) /\ Same(RAbs(a), D!RAbs(da))
Order == /\ RLe(a, b) = D!RLe(da, db) /\ RLt(a, b) = D!RLt(da, db) /\ REq(a, b) = D!REq(da, db)
         /\ RSign(a) = D!RSign(da) /\ RLe(a, b) = (q[1] * q[4] <= q[3] * q[2])
Round == /\ Same(RFloor(a), D!RFloor(da)) /\ RToInt(a) = D!RToInt(da)
         /\ \A k \in 0..3 : Same(RRnd(a, k), D!RRnd(da, k)) /\ (q[1] >= 0 => Same(RSqrt(a, k), D!RSqrt(da, k)))
         /\ Same(RPow2(q[1]), D!RPow2(q[1]))
Sums == /\ Same(RSum(<<a, b, a>>), D!RSum(<<da, db, da>>))
        /\ Same(RDot(<<a, b>>, <<b, b>>), D!RDot(<<da, db>>, <<db, db>>))
Texts == REq(RX(RStr(a)), a) /\ REq(RX("0x1.8p+1"), R(3)) /\ REq(RX("-0x1p-2"), RQ(-1, 4)) /\ REq(RX("0x0p+0"), R(0))

NearTo(x, y, s) == RLe(RAbs(RSub(x, y)), RMul(RPow2(6 - B), RMax(R(1), RAbs(s))))
\* each function by the equation that defines it (with its value or slope at 0)
Roots == q[1] >= 0 => LET r == RSqrt(a, B) IN RLe(RMul(r, r), a) /\ NearTo(RMul(r, r), a, a)
Expo == /\ NearTo(RMul(RExp(a, B), RExp(b, B)), RExp(RAdd(a, b), B), RMul(RExp(RAbs(a), B), RExp(RAbs(b), B)))
        /\ RLe(RAdd(R(1), a), RAdd(RExp(a, B), RPow2(6 - B)))
Logs == q[1] > 0 => NearTo(RLn(RExp(b, B), B), b, RExp(RAbs(b), B)) /\ NearTo(RExp(RLn(a, B), B), a, a)
Waves == LET s == RSin(a, B) c == RCos(a, B) IN
         /\ NearTo(RAdd(RMul(s, s), RMul(c, c)), R(1), R(1))
         /\ NearTo(RSin(RAdd(a, b), B), RAdd(RMul(s, RCos(b, B)), RMul(c, RSin(b, B))), R(1))
         /\ NearTo(RCos(RAdd(a, b), B), RSub(RMul(c, RCos(b, B)), RMul(s, RSin(b, B))), R(1))
         /\ (RSign(a) >= 0 => RLe(s, RAdd(a, RPow2(6 - B))) /\ RLe(RSub(a, RDiv(RMul(a, RMul(a, a)), R(6))), RAdd(s, RPow2(6 - B))))
Arcs == /\ LET t == RAtan(a, B) IN NearTo(RSin(t, B), RMul(a, RCos(t, B)), a) /\ RSign(RCos(t, B)) > 0
        /\ (q[1] # 0 \/ q[3] # 0) =>
             LET t == RAtan2(a, b, B) n == RSqrt(RAdd(RMul(a, a), RMul(b, b)), B) IN
             NearTo(RMul(n, RSin(t, B)), a, n) /\ NearTo(RMul(n, RCos(t, B)), b, n)
        /\ RLe(RAbs(a), R(1)) => NearTo(RSin(RAsin(a, B), B), a, R(1))
        /\ NearTo(RSin(RPi(B), B), R(0), R(1)) /\ RLt(R(3), RPi(B)) /\ RLt(RPi(B), RQ(22, 7))
=============================================================================

----------------------------- MODULE ClockTrace -----------------------------
(***************************************************************************)
(* Times, durations and the timestamp corrector of the code against exact  *)
(* arithmetic on nanoseconds and the exact lower hull.                     *)
(***************************************************************************)
EXTENDS Clocks, LinAlg, Trc

VARIABLES D, L, grid   \* the corrector of doubles, that of integers: [H: hull, n: observations, h: least step, y: local range]
vars == <<l, D, L, grid>>

G == RX("1000000000")
TLo == R(0)
THi == RX("4294967295")
DLo == RX("-2147483648")
DHi == RX("2147483647")
Refused(o) == Len(o) = 1 /\ o[1] = "refused"
Pair(o) == Value(RX(o[1]), RX(o[2]), G)
NormalPair(o) == Len(o) = 2 /\ RLe(R(0), RX(o[2])) /\ RLt(RX(o[2]), G)
Fits(v, lo, hi) == LET s == Sec(v, G) IN RLe(lo, s) /\ RLe(s, hi)
\* the outcome o is v, or v is refused because it does not fit
Gives(o, v, lo, hi) ==
  IF Fits(v, lo, hi) THEN NormalPair(o) /\ REq(Pair(o), v) ELSE Refused(o)
GivesT(o, v) == Gives(o, v, TLo, THi)
GivesD(o, v) == Gives(o, v, DLo, DHi)
\* the same up to e nanoseconds
About(o, v, e, lo, hi) ==
  \/ Refused(o) /\ ~(Fits(RAdd(v, e), lo, hi) /\ Fits(RSub(v, e), lo, hi))
  \/ /\ NormalPair(o) /\ RLe(lo, RX(o[1])) /\ RLe(RX(o[1]), hi)
     /\ RLe(RAbs(RSub(Pair(o), v)), e)

B(x) == IF x THEN 1 ELSE 0
Cmp(a, b) == <<B(RLt(a, b)), B(RLe(a, b)), B(REq(a, b)), B(~REq(a, b)), B(RLe(b, a)), B(RLt(b, a))>>
Rel(v, k) == RMul(RPow2(-k), RAbs(v))
a == Pair(Line.a)
b == Pair(Line.b)
Micro(v) == RFloor(RDiv(v, R(1000)))
SecNear(x, v) == RLe(RAbs(RSub(RMul(RX(x), G), v)), Rel(v, 51))

Fresh == [H |-> << >>, n |-> 0, h |-> R(0), lo |-> R(0), hi |-> R(0)]
Init == l = 1 /\ D = Fresh /\ L = Fresh /\ grid = FALSE
Same == UNCHANGED <<D, L, grid>>
Begin == Is("begin") /\ D' = Fresh /\ L' = Fresh /\ grid' = (SubSeq(Line.id, 1, 4) = "grid") /\ Step

Make ==
  /\ Is("mk")
  /\ Chk("time", GivesT(Line.t, Value(RX(Line.a[1]), RX(Line.a[2]), G)))
  /\ Chk("duration", GivesD(Line.d, Value(RX(Line.b[1]), RX(Line.b[2]), G)))
  /\ Same /\ Step
FromNs ==
  /\ Is("fns")
  /\ Chk("time", GivesT(Line.t, RX(Line.a)))
  /\ Chk("duration", GivesD(Line.d, RX(Line.b)))
  /\ Same /\ Step
FromSec ==
  /\ Is("fsec")
  /\ LET e == R(1)
         v == IF RIsFinite(Line.x) THEN RMul(RX(Line.x), G) ELSE RX("1000000000000000000000000") IN
     /\ Chk("time", About(Line.t, v, e, TLo, THi) /\ Line.t2 = Line.t)
     /\ Chk("duration", About(Line.d, v, e, DLo, DHi) /\ Line.d2 = Line.d)
  /\ Same /\ Step
TimeTime ==
  /\ Is("tt")
  /\ Chk("normal", NormalPair(Line.a) /\ NormalPair(Line.b))
  /\ Chk("order", Line.cmp = Cmp(a, b))
  /\ Chk("difference", GivesD(Line.diff, RSub(a, b)))
  /\ Chk("nanoseconds", REq(RX(Line.ns), a) /\ Line.back = Line.a)
  /\ Chk("seconds", SecNear(Line.sec, a) /\ About(Line.secback, a, RAdd(R(1), Rel(a, 51)), TLo, THi))
  /\ Chk("printed", Line.shown # "bad" /\ REq(RX(Line.shown), a))
  /\ Chk("zero", Line.zero = (RSign(a) = 0) /\ Line.nonzero = ~Line.zero)
  /\ Chk("microseconds", REq(RX(Line.usec), Micro(a)))
  /\ Same /\ Step
TimeDuration ==
  /\ Is("td")
  /\ Chk("normal", NormalPair(Line.a) /\ NormalPair(Line.b))
  /\ Chk("sum", GivesT(Line.add, RAdd(a, b)) /\ Line.iadd = Line.add)
  \* the code adds the negated duration; the least duration has none and may be refused
  /\ Chk("difference", GivesT(Line.sub, RSub(a, b)) \/ (Refused(Line.sub) /\ ~Fits(RNeg(b), DLo, DHi)))
  /\ Chk("in place", Line.isub = Line.sub)
  /\ Same /\ Step
DurationDuration ==
  /\ Is("dd")
  /\ Chk("normal", NormalPair(Line.a) /\ NormalPair(Line.b))
  /\ Chk("order", Line.cmp = Cmp(a, b))
  /\ Chk("sum", GivesD(Line.add, RAdd(a, b)) /\ Line.iadd = Line.add)
  /\ Chk("difference", GivesD(Line.sub, RSub(a, b)))
  /\ Chk("difference in place", Line.isub = Line.sub \/ (Refused(Line.isub) /\ ~Fits(RNeg(b), DLo, DHi)))
  /\ Chk("negated", GivesD(Line.neg, RNeg(a)))
  /\ LET v == RMul(a, RX(Line.x)) IN
     Chk("scaled", About(Line.mul, v, RAdd(R(1), Rel(v, 50)), DLo, DHi) /\ Line.imul = Line.mul)
  /\ Chk("nanoseconds", REq(RX(Line.ns), a) /\ Line.back = Line.a)
  \* seconds and fraction may have opposite signs and cancel
  /\ Chk("seconds", RLe(RAbs(RSub(RMul(RX(Line.sec), G), a)), RMul(RPow2(-51), RAdd(RAbs(a), RMul(R(2), G)))))
  /\ Chk("seconds back", About(Line.secback, a, RAdd(R(1), Rel(a, 51)), DLo, DHi))
  /\ Chk("printed", Line.shown # "bad" /\ REq(RX(Line.shown), a))
  /\ Chk("zero", Line.zero = (RSign(a) = 0))
  /\ Chk("microseconds", REq(RX(Line.usec), Micro(a)))
  /\ Same /\ Step
Consts ==
  /\ Is("consts")
  /\ Chk("constants", Line.v = << <<"0", "1">>, <<"4294967295", "999999999">>, <<"-2147483648", "0">>, <<"2147483647", "999999999">>,
                                  <<"0", "0">>, <<"0", "0">>, <<"0", "0">>, <<"0", "0">> >>)
  /\ Same /\ Step
Now ==
  /\ Is("now")
  /\ Chk("now", NormalPair(Line.t) /\ RLe(Pair(Line.lo), Pair(Line.t)) /\ RLe(Pair(Line.t), Pair(Line.hi)))
  /\ Same /\ Step
NowNs ==
  /\ Is("nsecnow")
  /\ Chk("now", RLe(Pair(Line.lo), RX(Line.n)) /\ RLe(RX(Line.n), Pair(Line.hi)))
  /\ Same /\ Step
Sleep ==
  /\ Is("sleep")
  /\ Chk("slept", Line.ok /\ RLe(RAdd(Pair(Line.lo), Pair(Line.d)), Pair(Line.hi)))
  /\ Same /\ Step
Nsec1 ==
  /\ Is("nsec")
  /\ Chk("chrono", Line.chrono = Line.n /\ Line.back = Line.n)
  /\ Chk("seconds", SecNear(Line.sec, RX(Line.n)))
  /\ LET v == RMul(RX(Line.x), G) IN
     Chk("nanoseconds", RLe(RAbs(RSub(RX(Line.ns), v)), RAdd(R(1), Rel(v, 51))))
  /\ Same /\ Step

\* ---------------------------------------------------------- the corrector
IsInt == Line.k = "long"
S == IF IsInt THEN L ELSE D
Add(s, p) ==
  LET H == Append1(s.H, p)
      dx == IF s.n = 0 THEN R(0) ELSE RSub(p[1], s.H[Len(s.H)][1])
  IN  [H |-> H, n |-> s.n + 1,
       h |-> IF s.n <= 1 THEN dx ELSE IF RLt(dx, s.h) THEN dx ELSE s.h,
       lo |-> IF s.n = 0 \/ RLt(p[2], s.lo) THEN p[2] ELSE s.lo,
       hi |-> IF s.n = 0 \/ RLt(s.hi, p[2]) THEN p[2] ELSE s.hi]
\* what rounding can do to the line: to the turns it is built from and to its values; amplified where steps are short
Tol(s) ==
  LET X == RSub(s.H[Len(s.H)][1], s.H[1][1])
      YY == RAdd(RSub(s.hi, s.lo), RPow2(-60))
      q == RDiv(X, s.h)
      e == RPow2(IF IsInt THEN -61 ELSE -50)
      M == RAdd(RAbs(s.H[1][1]), RAbs(s.H[Len(s.H)][1]))
  IN  RAdd(IF IsInt THEN RAdd(R(2), RDiv(YY, s.h)) ELSE RDiv(RMul(RMul(RPow2(-51), M), YY), s.h), \* the middle is rounded, too
           RMul(e, RAdd(RAdd(RAbs(s.lo), RAbs(s.hi)), RMul(YY, RMul(q, RAdd(R(2), q))))))
Val(x) == RX(x)
Known(x) == x \notin {"backwards", "uninitialised", "refused"} /\ RIsFinite(x)
Judge(s, accepted) ==
  IF s.n < 2
  THEN /\ Chk("uninitialised", \A i \in DOMAIN Line.v : Line.v[i] = "uninitialised")
       /\ Chk("uninitialised", Line.slope = "uninitialised" /\ Line.offset = "uninitialised")
       /\ Chk("first", accepted => Line.ret = Line.y)
       /\ Chk("count", Line.n = s.n)
  ELSE
  /\ Chk("given", \A i \in DOMAIN Line.v : Known(Line.v[i]))
  /\ Chk("given", Known(Line.slope) /\ Known(Line.offset) /\ (accepted => Known(Line.ret)))
  \* the scripts query the first and the last remote time first
  /\ \E p \in {Force(<<RX(Line.q[1]), Val(Line.v[1])>>)}, r \in {Force(<<RX(Line.q[2]), Val(Line.v[2])>>)}, tol \in {Force(Tol(s))} :
       LET m == Middle(s.H)
           n == Len(s.H)
           span == RSub(r[1], p[1])
           slope == RDiv(RSub(r[2], p[2]), span)
           extra(x) == RMul(tol, RAdd(R(1), RDiv(RAdd(RAbs(RSub(x, p[1])), RAbs(RSub(x, r[1]))), span))) IN
       /\ Chk("no observation below", \A i \in 1..n : RLe(At(p, r, s.H[i][1]), RAdd(s.H[i][2], RMul(R(2), tol))))
       /\ Chk("over the middle", RLe(RAbs(RSub(At(p, r, m), HullAt(s.H, m))), RMul(R(2), tol)))
       /\ Chk("one line", \A i \in DOMAIN Line.q : RLe(RAbs(RSub(At(p, r, RX(Line.q[i])), Val(Line.v[i]))), extra(RX(Line.q[i]))))
       /\ Chk("returned", accepted => RLe(RAbs(RSub(At(p, r, RX(Line.r)), Val(Line.ret))), RMul(R(2), tol)))
       /\ Chk("slope", RLe(RMul(RAbs(RSub(Val(Line.slope), slope)), span), RMul(R(4), tol)))
       /\ Chk("offset", RLe(RAbs(RSub(Val(Line.offset), At(p, r, R(0)))), RAdd(extra(R(0)), RMul(RPow2(-49), RMul(RAdd(R(1), RAbs(slope)), RAdd(RAbs(r[1]), RAbs(r[2])))))))
       /\ Chk("count", n <= Line.n /\ Line.n <= s.n)
Obs ==
  /\ Is("obs")
  /\ \E p \in {Force(<<RX(Line.r), RX(Line.y)>>)} :
     IF S.n > 0 /\ RLe(p[1], S.H[Len(S.H)][1])
     THEN /\ Chk("refused", Line.ret = "backwards") /\ Judge(S, FALSE)
          /\ Same
     ELSE \E s \in {Force(Add(S, p))} :
          /\ Judge(s, TRUE)
          /\ IF IsInt THEN L' = s /\ UNCHANGED <<D, grid>> ELSE D' = s /\ UNCHANGED <<L, grid>>
  /\ Step

Next == Begin \/ Make \/ FromNs \/ FromSec \/ TimeTime \/ TimeDuration \/ DurationDuration \/ Consts \/ Now \/ NowNs \/ Sleep \/ Nsec1 \/ Obs
=============================================================================

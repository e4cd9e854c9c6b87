------------------------------ MODULE ClocksMC ------------------------------
(***************************************************************************)
(* Design of the clocks.  One machine keeps a time and a duration as       *)
(* (seconds, nanoseconds) pairs that are carried the way the code carries  *)
(* them, next to their exact values; the other feeds every small history   *)
(* of (remote, local) observations to the corrector's stack algorithm.     *)
(***************************************************************************)
EXTENDS Clocks, Integers

CONSTANTS GI,        \* nanoseconds in a second
          TMax,      \* seconds of a time: 0..TMax
          DMax,      \* seconds of a duration: -DMax-1..DMax
          Depth, N, DX, Y   \* observations, remote steps 1..DX, local times 0..Y

VARIABLES t, tv, d, dv, refused, obs, hull, mid
vars == <<t, tv, d, dv, refused, obs, hull, mid>>

\* carries: nanoseconds into [0, G), then the range check on the seconds
RECURSIVE Carry(_, _)
Carry(s, n) == IF n >= GI THEN Carry(s + 1, n - GI) ELSE IF n < 0 THEN Carry(s - 1, n + GI) ELSE <<s, n>>
TRange(x) == x[1] >= 0 /\ x[1] <= TMax
DRange(x) == x[1] >= -(DMax + 1) /\ x[1] <= DMax
TVals == {<<s, n>> : s \in 0..TMax, n \in 0..(GI - 1)}
DVals == {<<s, n>> : s \in (-(DMax + 1))..DMax, n \in 0..(GI - 1)}
V(x) == x[1] * GI + x[2]

Init == /\ t \in TVals /\ tv = V(t)
        /\ d \in DVals /\ dv = V(d)
        /\ refused = "no"
        /\ obs = << >> /\ hull = << >> /\ mid = 1

Clock == /\ UNCHANGED <<obs, hull, mid>>
         /\ obs = << >> /\ refused = "no"
SetT(x, v) == IF TRange(x) THEN t' = x /\ tv' = v /\ refused' = "no" ELSE refused' = (IF v < 0 \/ v >= (TMax + 1) * GI THEN "unfit" ELSE "fits") /\ UNCHANGED <<t, tv>>
SetD(x, v) == IF DRange(x) THEN d' = x /\ dv' = v /\ refused' = "no" ELSE refused' = (IF v < -(DMax + 1) * GI \/ v >= (DMax + 1) * GI THEN "unfit" ELSE "fits") /\ UNCHANGED <<d, dv>>
AddT == Clock /\ SetT(Carry(t[1] + d[1], t[2] + d[2]), tv + dv) /\ UNCHANGED <<d, dv>>
SubT == Clock /\ SetT(Carry(t[1] - d[1], t[2] - d[2]), tv - dv) /\ UNCHANGED <<d, dv>>
Neg == Clock /\ SetD(Carry(-d[1], -d[2]), -dv) /\ UNCHANGED <<t, tv>>
Diff == Clock /\ \E u \in TVals : SetD(Carry(t[1] - u[1], t[2] - u[2]), tv - V(u)) /\ UNCHANGED <<t, tv>>

\* states keep integers; the hull is computed on rationals
Q(ps) == [i \in 1..Len(ps) |-> <<R(ps[i][1]), R(ps[i][2])>>]
Z(ps) == [i \in 1..Len(ps) |-> <<RToInt(ps[i][1]), RToInt(ps[i][2])>>]
Hull == Q(hull)
Obs == Q(obs)
Last == obs[Len(obs)]
Observe ==
  /\ refused = "no" /\ t = <<0, 0>> /\ d = <<0, 0>>
  /\ Len(obs) < N
  /\ \E dx \in 1..DX, y \in 0..Y :
       LET x == IF obs = << >> THEN 0 ELSE Last[1] + dx
           H == Append1(Hull, <<R(x), R(y)>>)
           m == RDiv(RAdd(H[1][1], R(x)), R(2))
       IN  /\ obs = << >> => dx = 1
           /\ obs' = Append(obs, <<x, y>>)
           /\ hull' = Z(H)
           \* the segment over the middle, however many points the hull has now
           /\ mid' = IF Len(H) < 2 THEN 1 ELSE CHOOSE i \in Over(H, m) : TRUE
  /\ UNCHANGED <<t, tv, d, dv, refused>>

\* a refused operation changes nothing
After == refused # "no" /\ refused' = "no" /\ UNCHANGED <<t, tv, d, dv, obs, hull, mid>>
Next == After \/ AddT \/ SubT \/ Neg \/ Diff \/ Observe
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth \/ obs # << >>

\* ------------------------------------------------------------- properties
Normal == t[2] \in 0..(GI - 1) /\ d[2] \in 0..(GI - 1)
Exact == /\ V(t) = tv /\ V(d) = dv
         /\ Sec(R(tv), R(GI)) = R(t[1]) /\ Nsec(R(tv), R(GI)) = R(t[2])
         /\ Sec(R(dv), R(GI)) = R(d[1]) /\ Nsec(R(dv), R(GI)) = R(d[2])
\* pairs are ordered as their values are
Ordered == \A e \in DVals : (d[1] < e[1] \/ (d[1] = e[1] /\ d[2] < e[2])) <=> dv < V(e)
\* only what does not fit is refused
OnlyUnfit == refused # "fits"

HullLower == Len(hull) >= 2 =>
  /\ hull[1] = obs[1] /\ hull[Len(hull)] = Last
  /\ \A i \in 1..(Len(hull) - 1) : \A k \in 1..Len(obs) : Turn(Hull[i], Hull[i + 1], Obs[k]) >= 0
HullOf == \A i \in 1..Len(hull) : \E k \in 1..Len(obs) : hull[i] = obs[k]
Convex == \A i \in 1..(Len(hull) - 2) : Turn(Hull[i], Hull[i + 1], Hull[i + 2]) > 0
MidIn == Len(hull) >= 2 =>
  /\ mid \in 1..(Len(hull) - 1)
  /\ RLe(Hull[mid][1], Middle(Hull)) /\ RLe(Middle(Hull), Hull[mid + 1][1])
  \* of all lines below every observation, the one through the middle segment is the highest at the middle
  /\ REq(At(Hull[mid], Hull[mid + 1], Middle(Hull)), HullAt(Hull, Middle(Hull)))
\* offsets of a fixed delay only move the line: a clock observed with a constant delay is corrected exactly
Constant == (Len(obs) >= 2 /\ \A k \in 1..Len(obs) : obs[k][2] - obs[k][1] = obs[1][2] - obs[1][1])
            => Len(hull) = 2
=============================================================================

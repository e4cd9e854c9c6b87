------------------------------- MODULE Clocks -------------------------------
(***************************************************************************)
(* Times and durations as seconds and nanoseconds, and the convex hull     *)
(* clock corrector of Zhang, Liu and Xia (INFOCOM 2002), over exact        *)
(* rationals.  G is the number of nanoseconds in a second.                 *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

Sec(v, G) == RFloor(RDiv(v, G))
Nsec(v, G) == RSub(v, RMul(G, Sec(v, G)))
Value(s, n, G) == RAdd(RMul(s, G), n)

(* Points are <<remote, local>>.  Below the segment a-b, on it: the sign   *)
(* of the turn a -> b -> p.                                                *)
Turn(a, b, p) == RSign(RSub(RMul(RSub(b[1], a[1]), RSub(p[2], a[2])), RMul(RSub(b[2], a[2]), RSub(p[1], a[1]))))

(* The lower hull of a sequence of points of increasing remote time: its   *)
(* vertices only.  Appending a point keeps it a hull.                      *)
RECURSIVE Append1(_, _)
Append1(H, p) ==
  IF Len(H) >= 2 /\ Turn(H[Len(H) - 1], H[Len(H)], p) <= 0 THEN Append1(SubSeq(H, 1, Len(H) - 1), p)
  ELSE Append(H, p)

At(a, b, x) == RAdd(a[2], RDiv(RMul(RSub(x, a[1]), RSub(b[2], a[2])), RSub(b[1], a[1])))
(* the segments of a hull of at least two points that hold x *)
Over(H, x) == {i \in 1..(Len(H) - 1) : RLe(H[i][1], x) /\ RLe(x, H[i + 1][1])}
HullAt(H, x) == LET i == CHOOSE k \in Over(H, x) : TRUE IN At(H[i], H[i + 1], x)
Middle(H) == RDiv(RAdd(H[1][1], H[Len(H)][1]), R(2))
=============================================================================

------------------------------ MODULE Cameras ------------------------------
(* Camera models.  A model is written once, as a projection over dual numbers
   (a value and its gradient with respect to the point, the projection
   parameters and the distortion parameters), so every Jacobian of a camera is
   by construction the derivative of its projection.                         *)
EXTENDS Integers, Sequences, LinAlg, Exact

CB == 120        \* fraction bits kept
CRnd(x) == RRnd(x, CB)
(* dual numbers <<value, gradient>> *)
DC(x, n) == Force(<<x, [i \in 1..n |-> R(0)]>>)                         \* constant
DVar(x, n, k) == Force(<<x, [i \in 1..n |-> IF i = k THEN R(1) ELSE R(0)]>>)
DAdd(a, b) == Force(<<RAdd(a[1], b[1]), [i \in 1..Len(a[2]) |-> RAdd(a[2][i], b[2][i])]>>)
DSub(a, b) == Force(<<RSub(a[1], b[1]), [i \in 1..Len(a[2]) |-> RSub(a[2][i], b[2][i])]>>)
DMul(a, b) == Force(<<CRnd(RMul(a[1], b[1])),
                [i \in 1..Len(a[2]) |-> CRnd(RAdd(RMul(a[1], b[2][i]), RMul(b[1], a[2][i])))]>>)
DK(k, a) == Force(<<CRnd(RMul(k, a[1])), [i \in 1..Len(a[2]) |-> CRnd(RMul(k, a[2][i]))]>>)
DAddK(a, k) == Force(<<RAdd(a[1], k), a[2]>>)
DDiv(a, b) == LET q == CRnd(RDiv(a[1], b[1]))
              IN Force(<<q, [i \in 1..Len(a[2]) |-> CRnd(RDiv(RSub(a[2][i], RMul(q, b[2][i])), b[1]))]>>)
(* f(a) with f(a.v) = v, f'(a.v) = dv *)
DF(v, dv, a) == LET w == v   e == dv IN Force(<<CRnd(w), [i \in 1..Len(a[2]) |-> CRnd(RMul(e, a[2][i]))]>>)
DSqrt(a) == LET s == Force(RSqrt(a[1], CB)) IN DF(s, Force(CRnd(RDiv(R(1), RMul(R(2), s)))), a)
DAtan(a) == DF(Force(RAtan(a[1], 100)), Force(CRnd(RDiv(R(1), RAdd(R(1), RMul(a[1], a[1]))))), a)
DTan(a) == LET sc == Force(RSinCos(a[1], 100))
               t == Force(CRnd(RDiv(sc[1], sc[2])))
           IN DF(t, Force(CRnd(RAdd(R(1), RMul(t, t)))), a)

(* ------------------------------------------------------------------ *)
NProj(kind) == CASE kind = "pin" -> 4 [] kind = "omni" -> 5 [] kind = "eucm" -> 6 [] kind = "ds" -> 6
NDist(dist) == CASE dist = "none" -> 0 [] dist = "radtan" -> 4 [] dist = "equi" -> 4 [] dist = "fov" -> 1
NFirst(kind) == NProj(kind) - 4            \* where fu, fv, cu, cv start

(* the factor by which a distortion that is radial scales, as a function of the squared radius *)
EquiFactor(s, k, n) ==
  IF RLt(s[1], RPow2(-50))
  THEN DAddK(DMul(DAddK(k[1], RDiv(R(-1), R(3))), s), R(1))
  ELSE LET r == DSqrt(s)
           t == DAtan(r)
           t2 == DMul(t, t)
           p == DAddK(DMul(t2, DAdd(k[1], DMul(t2, DAdd(k[2], DMul(t2, DAdd(k[3], DMul(t2, k[4]))))))), R(1))
       IN DDiv(DMul(t, p), r)
FovFactor(s, w, n) ==
  IF RLt(RAbs(w[1]), RPow2(-16))
  THEN LET w2 == DMul(w, w) IN DAddK(DSub(DK(RDiv(R(1), R(12)), w2), DK(RDiv(R(1), R(3)), DMul(s, w2))), R(1))
  ELSE LET tt == DK(R(2), DTan(DK(RDiv(R(1), R(2)), w)))
       IN IF RLt(s[1], RPow2(-50))
          THEN DMul(DDiv(tt, w), DAddK(DK(RDiv(R(-1), R(3)), DMul(DMul(tt, tt), s)), R(1)))
          ELSE LET r == DSqrt(s) IN DDiv(DAtan(DMul(tt, r)), DMul(w, r))
Distort(dist, u, v, k, n) ==
  LET s == DAdd(DMul(u, u), DMul(v, v))
  IN CASE dist = "none" -> <<u, v>>
       [] dist = "radtan" ->
            LET uv == DMul(u, v)
                f == DAddK(DMul(s, DAdd(k[1], DMul(k[2], s))), R(1))
            IN <<DAdd(DMul(u, f), DAdd(DK(R(2), DMul(k[3], uv)), DMul(k[4], DAdd(s, DK(R(2), DMul(u, u)))))),
                 DAdd(DMul(v, f), DAdd(DK(R(2), DMul(k[4], uv)), DMul(k[3], DAdd(s, DK(R(2), DMul(v, v))))))>>
       [] dist = "equi" -> LET f == EquiFactor(s, k, n) IN <<DMul(u, f), DMul(v, f)>>
       [] dist = "fov" -> LET f == FovFactor(s, k[1], n) IN <<DMul(u, f), DMul(v, f)>>

(* the number by which x and y are divided *)
Denominator(kind, x, y, z, q) ==
  LET r2 == DAdd(DMul(x, x), DMul(y, y))
      zz == DMul(z, z)
  IN CASE kind = "pin" -> z
       [] kind = "omni" -> DAdd(z, DMul(q[1], DSqrt(DAdd(r2, zz))))
       [] kind = "eucm" -> DAdd(DMul(q[1], DSqrt(DAdd(DMul(q[2], r2), zz))), DSub(z, DMul(q[1], z)))
       [] kind = "ds" -> LET k == DAdd(DMul(q[1], DSqrt(DAdd(r2, zz))), z)
                         IN DAdd(DMul(q[2], DSqrt(DAdd(r2, DMul(k, k)))), DSub(k, DMul(q[2], k)))
(* c = [kind, dist, q (projection parameters), k (distortion parameters)] *)
NVars(c) == 3 + NProj(c.kind) + NDist(c.dist)
Project(c, p) ==
  LET n == NVars(c)
      x == DVar(p[1], n, 1)   y == DVar(p[2], n, 2)   z == DVar(p[3], n, 3)
      q == [i \in 1..NProj(c.kind) |-> DVar(c.q[i], n, 3 + i)]
      k == [i \in 1..NDist(c.dist) |-> DVar(c.k[i], n, 3 + NProj(c.kind) + i)]
      den == DK(R(1), Denominator(c.kind, x, y, z, q))
      a == DDiv(x, den)   b == DDiv(y, den)
      d == Force(Distort(c.dist, a, b, k, n))
      o == NFirst(c.kind)
  IN Force([px |-> <<DAdd(DMul(q[o + 1], d[1]), q[o + 3]), DAdd(DMul(q[o + 2], d[2]), q[o + 4])>>,
            n |-> <<a[1], b[1]>>, den |-> den[1]])
KeyOf(P) == <<P.px[1][1], P.px[2][1]>>
JPoint(P) == <<SubSeq(P.px[1][2], 1, 3), SubSeq(P.px[2][2], 1, 3)>>
JProj(c, P) == LET m == NProj(c.kind) IN <<SubSeq(P.px[1][2], 4, 3 + m), SubSeq(P.px[2][2], 4, 3 + m)>>
JDist(c, P) == LET m == NProj(c.kind)  e == NVars(c) IN <<SubSeq(P.px[1][2], 4 + m, e), SubSeq(P.px[2][2], 4 + m, e)>>

(* ---- the domain of a model: "in", "out" or "edge" (too close to tell) ---- *)
Norm3(p) == RSqrt(RAdd(RMul(p[1], p[1]), RAdd(RMul(p[2], p[2]), RMul(p[3], p[3]))), CB)
W1(a) == IF RLe(a, RQ(1, 2)) THEN RDiv(a, RSub(R(1), a)) ELSE RDiv(RSub(R(1), a), a)
Fov(c) == CASE c.kind = "omni" -> IF RLe(c.q[1], R(1)) THEN c.q[1] ELSE RDiv(R(1), c.q[1])
            [] c.kind = "eucm" -> W1(c.q[1])
            [] c.kind = "ds" -> LET w == W1(c.q[2])   xi == c.q[1]
                                IN RDiv(RAdd(w, xi), RSqrt(RAdd(RMul(R(2), RMul(w, xi)), RAdd(RMul(xi, xi), R(1))), CB))
Sided(x, tol) == IF RLt(tol, x) THEN "in" ELSE IF RLt(x, RNeg(tol)) THEN "out" ELSE "edge"
Domain(c, p) ==
  IF c.kind = "pin" THEN IF RLt(R(0), p[3]) THEN "in" ELSE "out"      \* exact: a comparison with zero
  ELSE LET d == IF c.kind = "eucm"
                THEN RSqrt(RAdd(RMul(c.q[2], RAdd(RMul(p[1], p[1]), RMul(p[2], p[2]))), RMul(p[3], p[3])), CB)
                ELSE Norm3(p)
       IN Sided(RAdd(p[3], RMul(Fov(c), d)), RMul(RPow2(-40), VMax(p)))
InImage1(x, hi) == IF RLt(R(0), x) /\ RLt(x, hi) THEN Sided(RMin(x, RSub(hi, x)), RMul(RPow2(-26), RMax(R(1), hi)))
                   ELSE IF RLt(x, RMul(RPow2(-26), RNeg(hi))) \/ RLt(RMul(hi, RAdd(R(1), RPow2(-26))), x) THEN "out" ELSE "edge"
All3(s) == IF \E i \in DOMAIN s : s[i] = "out" THEN "out" ELSE IF \E i \in DOMAIN s : s[i] = "edge" THEN "edge" ELSE "in"
InImage(c, k) == All3(<<InImage1(k[1], R(c.ru)), InImage1(k[2], R(c.rv))>>)
(* a keypoint given exactly is judged exactly *)
InImageX(c, k) == IF RLe(R(0), k[1]) /\ RLt(k[1], R(c.ru)) /\ RLe(R(0), k[2]) /\ RLt(k[2], R(c.rv)) THEN "in" ELSE "out"

(* ---- back-projection: the ray of a point of the undistorted plane ---- *)
Liftable(c, r2) ==
  CASE c.kind = "pin" -> "in"
    [] c.kind = "omni" -> IF RLe(c.q[1], R(1)) THEN "in"
                          ELSE Sided(RSub(R(1), RMul(r2, RSub(RMul(c.q[1], c.q[1]), R(1)))), RPow2(-20))
    [] c.kind = "eucm" -> IF RLe(c.q[1], RQ(1, 2)) THEN "in"
                          ELSE Sided(RSub(R(1), RMul(r2, RMul(c.q[2], RSub(RMul(R(2), c.q[1]), R(1))))), RPow2(-20))
    [] c.kind = "ds" -> IF RLe(c.q[2], RQ(1, 2)) THEN "in"
                        ELSE Sided(RSub(R(1), RMul(r2, RSub(RMul(R(2), c.q[2]), R(1)))), RPow2(-20))
Ray(c, m) ==
  LET r2 == RAdd(RMul(m[1], m[1]), RMul(m[2], m[2]))
      q == c.q
  IN CASE c.kind = "pin" -> <<m[1], m[2], R(1)>>
       [] c.kind = "omni" ->
            <<m[1], m[2], RSub(R(1), RDiv(RMul(q[1], RAdd(r2, R(1))),
               RAdd(q[1], RSqrt(RAdd(R(1), RMul(RSub(R(1), RMul(q[1], q[1])), r2)), CB))))>>
       [] c.kind = "eucm" ->
            LET a == q[1]   b == q[2]
            IN <<m[1], m[2], RDiv(RSub(R(1), RMul(RMul(b, RMul(a, a)), r2)),
                 RAdd(RMul(a, RSqrt(RSub(R(1), RMul(RMul(RSub(RMul(R(2), a), R(1)), b), r2)), CB)), RSub(R(1), a)))>>
       [] c.kind = "ds" ->
            LET xi == q[1]   a == q[2]
                mz == CRnd(RDiv(RSub(R(1), RMul(RMul(a, a), r2)),
                        RAdd(RMul(a, RSqrt(RSub(R(1), RMul(RSub(RMul(R(2), a), R(1)), r2)), CB)), RSub(R(1), a))))
                f == CRnd(RDiv(RAdd(RMul(mz, xi), RSqrt(RAdd(RMul(mz, mz), RMul(RSub(R(1), RMul(xi, xi)), r2)), CB)), RAdd(RMul(mz, mz), r2)))
            IN <<RMul(f, m[1]), RMul(f, m[2]), RSub(RMul(f, mz), xi)>>

(* the two models whose distortion is given but not used *)
Distorts(kind) == kind \in {"pin", "omni"}
=============================================================================

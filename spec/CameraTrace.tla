----------------------------- MODULE CameraTrace -----------------------------
(* A camera is its parameters: every answer it gives is recomputed from them,
   whatever sequence of settings, updates and resizings led to them.         *)
EXTENDS Cameras, Trc
VARIABLE cam
vars == <<l, cam>>
None == [kind |-> "none"]

Par(a, b, c) == (IF a THEN cam.q ELSE <<>>) \o (IF b THEN cam.k ELSE <<>>) \o (IF c /\ ~cam.gs THEN <<cam.ld>> ELSE <<>>)
ColOf(v) == [i \in 1..Len(v) |-> <<v[i]>>]
\* the parameters with those selected replaced
Put(a, b, c, v) ==
  LET nq == IF a THEN Len(cam.q) ELSE 0   nk == IF b THEN Len(cam.k) ELSE 0
  IN [cam EXCEPT !.q = IF a THEN SubSeq(v, 1, nq) ELSE @,
                 !.k = IF b THEN SubSeq(v, nq + 1, nq + nk) ELSE @,
                 !.ld = IF c /\ ~cam.gs THEN v[nq + nk + 1] ELSE @]

Begin == Is("begin") /\ cam' = None /\ Step
Make == /\ Is("cam")
        /\ LET n == Line
               d == IF n.dist = "none" THEN 0 ELSE NDist(n.dist)
               gs == n.shutter = "gs"
           IN /\ Chk("dimensions", n.np = NProj(n.kind) /\ n.nd = d /\ n.ns = (IF gs THEN 0 ELSE 1) /\ n.kd = 2)
              /\ Chk("mask", n.hasMask = (n.mask # <<>> /\ ~gs))
              /\ cam' = [kind |-> n.kind, dist |-> n.dist, q |-> Vec(n.q), k |-> Vec(n.k), ru |-> n.ru, rv |-> n.rv,
                         ld |-> RX(n.ld), gs |-> gs, mask |-> IF gs THEN <<>> ELSE Mat(n.mask), ms |-> RX(n.ms)]
        /\ Step

\* ------------------------------------------------------------ masks
Trunc(x) == IF RSign(x) < 0 THEN -RToInt(RNeg(x)) ELSE RToInt(x)
MaskAt(k) == IF ~(\A x \in {1, 2} : RLt(RAbs(RMul(k[x], cam.ms)), R(100000))) THEN FALSE
             ELSE LET i == Trunc(RMul(k[2], cam.ms))   j == Trunc(RMul(k[1], cam.ms))
                  IN i >= 0 /\ j >= 0 /\ i < Len(cam.mask) /\ j < Len(cam.mask[1]) /\ RSign(cam.mask[i + 1][j + 1]) > 0
Masked(k) == IF cam.mask = <<>> THEN "in" ELSE IF MaskAt(k) THEN "in" ELSE "out"
\* a keypoint known only nearly: all pixels it may be in agree
MaskedNear(k, t) ==
  IF cam.mask = <<>> THEN "in"
  ELSE LET a == {Masked(<<RAdd(k[1], RMul(R(i), t)), RAdd(k[2], RMul(R(j), t))>>) : i \in {-1, 1}, j \in {-1, 1}}
       IN IF a = {"in"} THEN "in" ELSE IF a = {"out"} THEN "out" ELSE "edge"
Agrees(b, v) == v = "edge" \/ b = (v = "in")

\* ------------------------------------------------------------ projection
\* the field-of-view distortion is approximated where its formula is 0/0
Loose(n) == IF cam.dist # "fov" THEN R(0)
            ELSE LET r2 == RAdd(RMul(n[1], n[1]), RMul(n[2], n[2]))   w2 == RMul(cam.k[1], cam.k[1])
                     t == RAdd(R(1), r2)
                 IN IF RLt(w2, RQ(2, 100000)) THEN RMul(RQ(1, 20000), t)
                    ELSE IF RLt(r2, RQ(2, 100000))
                    THEN LET tt == DTan(DC(RDiv(cam.k[1], R(2)), 1))[1] IN RMul(RQ(1, 10000), RAdd(R(1), RMul(R(4), RMul(tt, tt))))
                    ELSE R(0)
\* the keypoint of a projection, judged; v is the expected validity
Same2(s, x, tol) == Len(s) = 2 /\ AllFinite(s) /\ \A i \in 1..2 : RLe(RAbs(RSub(RX(s[i]), x[i])), tol)
SameM(m, x, tol) == /\ Len(m) = Len(x) /\ AllFiniteM(m)
                    /\ \A i \in 1..Len(x) : Len(m[i]) = Len(x[i]) /\ \A j \in 1..Len(x[i]) : RLe(RAbs(RSub(RX(m[i][j]), x[i][j])), tol)
Judge(p, sign, J0, hom) ==
  LET n == Line IN
  IF RSign(VMax(p)) = 0 THEN TRUE          \* the centre of projection
  ELSE \E dom \in {Domain(cam, p)} :
   IF dom = "out" THEN Chk("refused", ~n.ok1 /\ ~n.ok2 /\ ~n.ok3 /\ ~n.ok4 /\ ~n.vis /\ ~n.vvis)
   ELSE IF dom = "edge" THEN TRUE
   ELSE \E P \in {Project(cam, p)} :
    \E cond \in {RAdd(R(1), RDiv(RMul(R(2), VMax(p)), P.den))} :
    IF RLt(RPow2(14), cond) THEN TRUE      \* next to the edge: the division amplifies the rounding of its divisor
    ELSE
    \E k \in {KeyOf(P)}, JP \in {JPoint(P)}, JQ \in {JProj(cam, P)}, JD \in {JDist(cam, P)} :
    \E sc \in {RAdd(VMax(cam.q), VMax(k))}, lo \in {Loose(P.n)} :
    LET t == RMul(sc, RAdd(RMul(RPow2(-42), RMul(cond, cond)), lo))
        tj(M) == RMul(RAdd(RAdd(VMax(cam.q), MMax(M)), RDiv(sc, P.den)), RAdd(RMul(RPow2(-40), RMul(cond, RMul(cond, cond))), RMul(R(8), lo)))
        td == RAdd(tj(JD), RMul(sc, RMul(R(100), RMul(lo, VMax(P.n)))))
        v == All3(<<InImage(cam, k), MaskedNear(k, RAdd(t, RPow2(-26)))>>)
        JX == IF hom THEN [i \in 1..2 |-> [j \in 1..4 |-> IF j = 4 THEN R(0) ELSE IF sign < 0 THEN RNeg(JP[i][j]) ELSE JP[i][j]]] ELSE JP
        JC == [i \in 1..2 |-> (IF n.a THEN JQ[i] ELSE <<>>) \o (IF n.b THEN JD[i] ELSE <<>>) \o (IF n.c /\ ~cam.gs THEN <<R(0)>> ELSE <<>>)]
    IN /\ Chk("keypoint", Same2(n.k1, k, t) /\ Same2(n.k2, k, t) /\ Same2(n.k3, k, t) /\ Same2(n.k4, k, t))
       /\ Chk("valid", Agrees(n.ok1, v) /\ Agrees(n.ok2, v) /\ Agrees(n.ok3, v) /\ Agrees(n.ok4, v))
       /\ Chk("visible", Agrees(n.vis, v) /\ Agrees(n.vvis, v))
       /\ Chk("point Jacobian", SameM(n.J2, JX, tj(JP)) /\ SameM(n.J4, JX, tj(JP)))
       /\ Chk("intrinsics Jacobian", SameM(n.Ji, JQ, tj(JQ)))
       /\ Chk("distortion Jacobian", IF NDist(cam.dist) = 0 THEN TRUE ELSE SameM(n.Jd, JD, td))
       /\ Chk("selected Jacobian", IF JC[1] = <<>> THEN n.Jc = <<>> \/ n.Jc[1] = <<>> ELSE SameM(n.Jc, JC, RAdd(tj(JQ), td)))
Proj == Is("proj") /\ (\E p \in {Vec(Line.p)} : Judge(p, 1, 0, FALSE)) /\ Step /\ UNCHANGED cam
ProjH == /\ Is("projh")
         /\ \E p \in {Vec(Line.p)} :
              LET s == IF RSign(p[4]) < 0 THEN -1 ELSE 1
              IN Judge(VScale(R(s), SubSeq(p, 1, 3)), s, 0, TRUE)
         /\ Step /\ UNCHANGED cam

\* ------------------------------------------------------------ back-projection
\* the iterative inversions of the distortions are meant for mild ones
Plane(k) == LET o == NFirst(cam.kind) IN Force([i \in 1..2 |-> RDiv(RSub(k[i], cam.q[o + 2 + i]), cam.q[o + i])])
Mild(m) ==
  LET r2 == RAdd(RMul(m[1], m[1]), RMul(m[2], m[2]))   a(i) == RAbs(cam.k[i])
  IN CASE cam.dist = "none" -> TRUE
       [] cam.dist = "radtan" -> LET s == RMul(r2, RQ(3, 2))
            IN RLe(RAdd(RMul(s, RAdd(a(1), RMul(a(2), s))), RMul(R(4), RMul(RAdd(a(3), a(4)), RAdd(R(1), s)))), RQ(1, 6))
       [] cam.dist = "equi" -> LET s == RMul(r2, RQ(3, 2))
            IN RLe(s, R(2)) /\ RLe(RMul(s, RAdd(RMul(R(2), a(1)), RMul(s, RAdd(RMul(R(4), a(2)), RMul(s, RAdd(RMul(R(6), a(3)), RMul(s, RMul(R(8), a(4))))))))), RQ(1, 4))
       [] cam.dist = "fov" -> RLe(RMul(r2, RMul(cam.k[1], cam.k[1])), R(2))
\* at least the square of the undistorted radius, or 0 where it is not bounded here:
\* tan x <= x * pi^2 / (pi^2 - 4 x^2)
TanBound(t) == IF ~RLt(RMul(R(4), t), RQ(19, 2)) THEN R(0)
               ELSE LET f == RDiv(RQ(987, 100), RSub(RQ(9869, 1000), RMul(R(4), t))) IN RMul(f, f)
Undistorted2(r2) ==
  CASE cam.dist = "radtan" -> RMul(R(2), r2)
    [] cam.dist = "equi" -> RMul(RMul(r2, RQ(3, 2)), TanBound(RMul(r2, RQ(3, 2))))
    [] cam.dist = "fov" -> RMul(r2, TanBound(RMul(r2, RMul(cam.k[1], cam.k[1]))))
LiftOk(k, r, tol) ==
  /\ AllFinite(r)
  /\ \E v \in {Vec(r)} : 
       \* the double sphere model back-projects a little beyond the points it projects
       Chk("ray in the domain", Domain(cam, v) # "out" \/ (cam.kind = "ds" /\ VNear(v, Ray(cam, Plane(k)), R(1), 24))) /\
       (Domain(cam, v) = "in" => \E P \in {Project(cam, v)} :
          Chk("ray projects back", \/ RLt(RMul(P.den, RPow2(9)), VMax(v))
                                   \/ LET t == RMul(tol, RAdd(R(1), RDiv(VMax(v), P.den)))
                                          e == RMul(VMax(cam.q), RMul(R(2), Loose(P.n)))
                                      IN \A i \in 1..2 : RLe(RAbs(RSub(KeyOf(P)[i], k[i])), RAdd(t, RMul(e, VMax(P.n))))))
\* J times the Jacobian of the projection is the identity, and J is the change of the ray
LiftJ(k, r, Js, tol, fd) ==
  /\ AllFiniteM(Js)
  /\ \E v \in {Vec(r)}, J \in {Mat(Js)} :
      (Domain(cam, v) = "in" => \E P \in {Project(cam, v)} :
          Chk("inverse Jacobian", \/ RLt(RMul(P.den, RPow2(7)), VMax(v))
                                  \/ MNear(MM(JPoint(P), J), MId(2), RMul(RAdd(R(1), MMax(JPoint(P))), RAdd(R(1), MMax(J))), 20)))
  /\ (fd /\ AllFiniteM(Line.fp) /\ AllFiniteM(Line.fm)) => \E F \in {MSub(Mat(Line.fp), Mat(Line.fm))}, J \in {Mat(Js)} :
       Chk("ray Jacobian", MNearRel(MScale(RPow2(8), F), J, RAdd(RPow2(-30), RMul(R(4), MMax(J))), 8))
Lift ==
  /\ Is("lift")
  /\ LET n == Line IN \E k \in {Vec(n.k)} : \E m \in {Plane(k)} :
     IF ~Mild(m) \/ RLt(R(4096), VMax(k)) THEN TRUE
     ELSE
     \* which points of the undistorted plane have a ray is only known here without distortion
     \E r2 \in {RAdd(RMul(m[1], m[1]), RMul(m[2], m[2]))} :
     LET li == IF cam.dist = "none" THEN Liftable(cam, r2)
               ELSE LET u == Undistorted2(r2)
                    IN IF (RSign(u) > 0 \/ RSign(r2) = 0) /\ Liftable(cam, u) = "in" THEN "in" ELSE "edge"
         im == InImageX(cam, k)
         v == IF li = "out" \/ Masked(k) = "out" THEN "out"
              ELSE IF im = "out" THEN IF cam.kind = "pin" THEN "out" ELSE "edge"
              ELSE li
         tol == RMul(RAdd(R(1), VMax(cam.q)), RPow2(-24))
         Vis(ok) == Agrees(ok, v)
         \* a ray is promised for keypoints with one
         J == n.jac
     IN /\ Chk("lift valid", Vis(n.ok1) /\ Vis(n.ok3) /\ Vis(n.okh1) /\ Vis(n.okh3))
        /\ Chk("lift with Jacobian", J \/ cam.dist = "fov")
        /\ (n.ok1 /\ v = "in") => /\ LiftOk(k, n.r1, tol)
                      /\ Chk("same ray", n.r3 = n.r1 /\ SubSeq(n.h1, 1, 3) = n.r1 /\ SubSeq(n.h3, 1, 3) = n.r1 /\ RSign(RX(n.h1[4])) = 0 /\ RSign(RX(n.h3[4])) = 0)
        /\ (J /\ v = "in") => /\ Chk("lift valid (J)", n.ok2 /\ n.ok4 /\ n.okh2 /\ n.okh4)
                              /\ \A r \in {n.r2, n.r4, SubSeq(n.h2, 1, 3), SubSeq(n.h4, 1, 3)} :
                                   Chk("same ray (J)", AllFinite(r) /\ VNear(Vec(r), Vec(n.r1), RAdd(R(1), VMax(Vec(n.r1))), 30))
                              /\ \A h \in {n.h2[4], n.h4[4]} : RSign(RX(h)) = 0
                              /\ Chk("same Jacobian", n.J4 = n.J2 /\ SubSeq(n.Jh, 1, 3) = n.J2 /\ SubSeq(n.J6, 1, 3) = n.J2)
                              /\ LiftJ(k, n.r1, n.J2, tol, n.fd)
                              /\ Chk("row of zeros", \A X \in {n.Jh[4], n.J6[4]} : \A i \in 1..2 : RSign(RX(X[i])) = 0)
        /\ (J /\ v = "out") => Chk("lift refused (J)", ~n.ok2 /\ ~n.ok4 /\ ~n.okh2 /\ ~n.okh4)
  /\ Step /\ UNCHANGED cam

Valid == /\ Is("valid")
         /\ \E k \in {Vec(Line.k)} : LET v == All3(<<InImageX(cam, k), Masked(k)>>)
            IN Chk("keypoint validity", Agrees(Line.ok, v) /\ Agrees(Line.vok, v))
         /\ Step /\ UNCHANGED cam
\* durations are whole nanoseconds
Shutter == /\ Is("shut")
           /\ \E k \in {Vec(Line.k)} :
              LET n == Line
                  t == IF cam.gs THEN R(0) ELSE RMul(cam.ld, k[2])
                  J == (IF n.a THEN [i \in 1..Len(cam.q) |-> R(0)] ELSE <<>>) \o (IF n.b THEN [i \in 1..Len(cam.k) |-> R(0)] ELSE <<>>)
                       \o (IF n.c /\ ~cam.gs THEN <<k[2]>> ELSE <<>>)
              IN /\ Chk("offset", \A x \in {n.t1, n.t2, n.t3} : RLe(RAbs(RSub(RX(x), t)), RQ(11, 1000000000) ))
                 /\ Chk("offset Jacobian", IF J = <<>> THEN n.J = <<>> \/ n.J[1] = <<>> ELSE SameM(n.J, <<J>>, RMul(RPow2(-45), VMax(J))))
           /\ Step /\ UNCHANGED cam

ReadBack(c) == LET n == Line   all == c.q \o c.k \o (IF c.gs THEN <<>> ELSE <<c.ld>>)
                   sel == (IF n.a THEN c.q ELSE <<>>) \o (IF n.b THEN c.k ELSE <<>>) \o (IF n.c /\ ~c.gs THEN <<c.ld>> ELSE <<>>)
               IN /\ Chk("parameters", Mat(n.P) = ColOf(all))
                  /\ Chk("selected parameters", (IF sel = <<>> THEN n.Q = <<>> ELSE Mat(n.Q) = ColOf(sel)) /\ n.dim = Len(sel))
Get == Is("get") /\ ReadBack(cam) /\ Step /\ UNCHANGED cam
Set == /\ Is("set")
       /\ \E c \in {Put(Line.a, Line.b, Line.c, Vec(Line.v))} : ReadBack(c) /\ cam' = c
       /\ Step
\* an update adds; the sum is the rounded one
Upd == /\ Is("upd")
       /\ LET n == Line IN
          \E was \in {Par(n.a, n.b, n.c)} :
            /\ Len(was) = Len(n.v)
            /\ IF was = <<>> THEN UNCHANGED cam
               ELSE \E now \in {[i \in 1..Len(was) |-> RX(n.Q[i][1])]} :
                 /\ Chk("updated", \A i \in 1..Len(was) : RLe(RAbs(RSub(now[i], RAdd(was[i], RX(n.v[i])))), RMul(RPow2(-50), RMax(RAbs(now[i]), RAbs(was[i])))))
                 /\ \E c \in {Put(n.a, n.b, n.c, now)} : ReadBack(c) /\ cam' = c
       /\ Step
Resize == /\ Is("resize")
          /\ LET n == Line   f == RX(n.f)   o == NFirst(cam.kind) IN
             \E now \in {[i \in 1..Len(cam.q) |-> RX(n.P[i][1])]} :
               /\ Chk("resized", \A i \in 1..Len(now) : RLe(RAbs(RSub(now[i], IF i > o THEN RMul(cam.q[i], f) ELSE cam.q[i])), RMul(RPow2(-50), RAbs(now[i]))))
               /\ Chk("resized image", LET u == RToInt(RMul(R(cam.ru), f))   v == RToInt(RMul(R(cam.rv), f))
                                           ok(x, e, w) == x = e \/ (x = e - 1 /\ REq(R(e), RMul(R(w), f)))
                                       IN n.w \in {u, u - 1} /\ n.h \in {v, v - 1} /\ RLe(RAbs(RSub(R(n.w), RMul(R(cam.ru), f))), R(1)) /\ RLe(RAbs(RSub(R(n.h), RMul(R(cam.rv), f))), R(1)))
               /\ cam' = [cam EXCEPT !.q = now, !.ru = n.w, !.rv = n.h]
          /\ Step

Init == l = 1 /\ cam = None
Next == Begin \/ Make \/ Proj \/ ProjH \/ Lift \/ Valid \/ Shutter \/ Get \/ Set \/ Upd \/ Resize
=============================================================================

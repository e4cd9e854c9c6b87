----------------------------- MODULE CamerasMC -----------------------------
(* Laws of the camera models, over a grid of cameras and points. *)
EXTENDS Cameras, TLC, FiniteSets
CONSTANTS Points, Deep
VARIABLES cam, p, chk

D(n, d) == RQ(n, d)
Intr == <<D(101, 10), D(197, 20), D(63, 10), D(23, 4)>>
Dists == {[dist |-> "none", k |-> <<>>],
          [dist |-> "radtan", k |-> <<D(-1, 8), D(1, 50), D(1, 300), D(-1, 250)>>],
          [dist |-> "equi", k |-> <<D(1, 20), D(-1, 50), D(1, 80), D(1, 400)>>],
          [dist |-> "fov", k |-> <<D(9, 10)>>]}
None == [dist |-> "none", k |-> <<>>]
Cam(kind, pre, d) == [kind |-> kind, q |-> pre \o Intr, dist |-> d.dist, k |-> d.k, ru |-> 64, rv |-> 48]
Xis == {D(0, 1), D(1, 2), D(1, 1), D(3, 2)}
Alphas == {D(0, 1), D(1, 4), D(1, 2), D(7, 10)}
Cams == {Cam("pin", <<>>, d) : d \in Dists} \cup {Cam("omni", <<x>>, d) : x \in Xis, d \in Dists}
     \cup {Cam("eucm", <<a, b>>, None) : a \in Alphas, b \in {D(1, 1), D(3, 4), D(5, 3)}}
     \cup {Cam("ds", <<x, a>>, None) : x \in {D(-1, 5), D(0, 1), D(1, 2)}, a \in Alphas}
Coords == -Points..Points
Pts == {<<R(a), D(2 * b + 1, 2), D(3 * c, 2)>> : a \in Coords, b \in Coords, c \in Coords}

Init == cam \in Cams /\ p \in Pts /\ chk = FALSE
Next == ~chk /\ chk' = TRUE /\ UNCHANGED <<cam, p>>
Spec == Init /\ [][Next]_<<cam, p, chk>>

Near20(a, b) == RLe(RAbs(RSub(a, b)), RMul(RPow2(-20), RMax(R(1), RAbs(b))))
VNear20(a, b) == \A i \in DOMAIN a : Near20(a[i], b[i])
InDom == Domain(cam, p) = "in"
Tight == RLt(RMul(Project(cam, p).den, R(64)), VMax(p))
Par(c) == c.q \o c.k
WithPar(c, v) == [c EXCEPT !.q = SubSeq(v, 1, NProj(c.kind)), !.k = SubSeq(v, NProj(c.kind) + 1, Len(v))]
Bump(v, i, h) == [v EXCEPT ![i] = RAdd(v[i], h)]

(* inside the domain the division is by a positive number *)
Positive == (chk /\ InDom) => RLt(R(0), Project(cam, p).den)
(* only the direction matters *)
ScaleFree == (chk /\ InDom) => VNear20(KeyOf(Project(cam, VScale(D(7, 3), p))), KeyOf(Project(cam, p)))
Euler == (chk /\ InDom /\ ~Tight) => LET P == Project(cam, p) IN VNear20(MV(JPoint(P), p), <<R(0), R(0)>>)
(* the gradients are derivatives *)
H == RPow2(-30)
DiffNear(a, b, obs) == \A i \in 1..2 : RLe(RAbs(RSub(RDiv(RSub(a[i], b[i]), RMul(R(2), H)), obs[i])), RMul(RPow2(-16), RMax(R(1), RAbs(obs[i]))))
DPoint == (chk /\ InDom /\ ~Tight) => LET P == Project(cam, p)  J == JPoint(P) IN \A i \in 1..3 :
            DiffNear(KeyOf(Project(cam, Bump(p, i, H))), KeyOf(Project(cam, Bump(p, i, RNeg(H)))), <<J[1][i], J[2][i]>>)
DPar == (chk /\ InDom /\ ~Tight) => LET P == Project(cam, p)  v == Par(cam)
            J == HCat(JProj(cam, P), JDist(cam, P))
        IN \A i \in 1..Len(v) :
            DiffNear(KeyOf(Project(WithPar(cam, Bump(v, i, H)), p)), KeyOf(Project(WithPar(cam, Bump(v, i, RNeg(H))), p)), <<J[1][i], J[2][i]>>)
(* the ray of a projection goes through the point *)
RoundTrip == (chk /\ InDom /\ ~Tight) =>
   LET P == Project(cam, p)
       r2 == RAdd(RMul(P.n[1], P.n[1]), RMul(P.n[2], P.n[2]))
   IN /\ Liftable(cam, r2) # "out"
      /\ Liftable(cam, r2) = "in" =>
           LET r == Ray(cam, P.n)   d == RDot(r, p)
           IN /\ RLt(R(0), d)
              /\ \A i \in 1..3 : LET x == Cross(r, p) IN RLe(RAbs(x[i]), RMul(RPow2(-30), d))
(* models contain one another *)
Same(c, d) == Domain(c, p) = "in" => /\ Domain(d, p) = "in"
                                     /\ VNear20(KeyOf(Project(c, p)), KeyOf(Project(d, p)))
Nested == chk =>
  /\ (cam.kind = "omni" /\ RSign(cam.q[1]) = 0) => Same([cam EXCEPT !.kind = "pin", !.q = Intr], cam)
  /\ (cam.kind = "ds" /\ RSign(cam.q[1]) = 0) => Same([cam EXCEPT !.kind = "eucm", !.q = <<cam.q[2], R(1)>> \o Intr], cam)
  /\ (cam.kind = "ds" /\ RSign(cam.q[2]) = 0 /\ RLe(R(0), cam.q[1])) => Same([cam EXCEPT !.kind = "omni", !.q = <<cam.q[1]>> \o Intr], cam)
  /\ (cam.kind = "eucm" /\ REq(cam.q[2], R(1))) =>
        \* the unified model in its other parametrisation
        LET a == cam.q[1]   s == RSub(R(1), a)
        IN Same([cam EXCEPT !.kind = "omni",
                 !.q = <<RDiv(a, s), RDiv(Intr[1], s), RDiv(Intr[2], s), Intr[3], Intr[4]>>], cam)
=============================================================================

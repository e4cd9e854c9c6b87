---------------------------- MODULE TargetTrace ----------------------------
(***************************************************************************)
(* Calibration targets, observations and the grid detector of the code     *)
(* against Targets.tla.                                                    *)
(***************************************************************************)
EXTENDS Targets, Cameras, Trc

VARIABLES tgs, obs, cam
vars == <<l, tgs, obs, cam>>

NoCam == [kind |-> "none"]
Init == l = 1 /\ tgs = << >> /\ obs = << >> /\ cam = NoCam
Begin == Is("begin") /\ tgs' = << >> /\ obs' = << >> /\ cam' = NoCam /\ Step
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* ------------------------------------------------------------ targets
GridPos(k, a, b, r, c) ==
  CASE k = "checker" -> <<RMul(a, R(r)), RMul(b, R(c)), R(0)>>
    [] k = "circle" -> IF RSign(b) = 0 THEN <<RMul(a, R(r)), RMul(a, R(c)), R(0)>>
                       ELSE <<RMul(a, R(2 * c + (r % 2))), RMul(a, R(r)), R(0)>>
    [] k = "april" -> LET at(i) == RMul(a, RAdd(RMul(R(i \div 2), RAdd(R(1), b)), R(i % 2))) IN <<at(c), at(r), R(0)>>
MakeTarget ==
  /\ Is("target")
  /\ LET n == Line
         a == RX(n.a)   b == RX(n.b)
         bad == RSign(a) <= 0 \/ (n.k # "circle" /\ RSign(b) <= 0)
     IN IF bad THEN Chk("refused", n.refused) /\ UNCHANGED tgs
        ELSE
        LET f == IF n.k = "april" THEN 2 ELSE 1
            rows == f * n.rows0   cols == f * n.cols0 IN
        /\ Chk("accepted", ~n.refused)
        /\ Chk("size", n.size = rows * cols /\ n.rows = rows /\ n.cols = cols)
        /\ \E pos \in {Force([i \in 1..(rows * cols) |-> GridPos(n.k, a, b, RowOf(i - 1, cols), ColOf(i - 1, cols))])} :
             /\ Chk("points", /\ Len(n.points) = n.size
                              /\ \A i \in 1..n.size : \A k \in 1..3 : RLe(RAbs(RSub(RX(n.points[i][k]), pos[i][k])), RMul(RPow2(-49), pos[i][k])))
        /\ Chk("point", n.point = n.points /\ n.grid = n.points)
        /\ Chk("data", n.data = n.points /\ n.bad = 0 /\ n.beyond)
        /\ Chk("coordinates", \A i \in 1..n.size : n.gr[i] = RowOf(i - 1, cols) /\ n.gc[i] = ColOf(i - 1, cols) /\ n.back[i] = i - 1)
        /\ tgs' = With(tgs, n.r, [rows |-> rows, cols |-> cols, pts |-> n.points])
  /\ UNCHANGED <<obs, cam>> /\ Step
Camera ==
  /\ Is("camera")
  /\ cam' = [kind |-> Line.k, dist |-> "none", q |-> Vec(Line.q), k |-> << >>, ru |-> Line.ru, rv |-> Line.rv]
  /\ UNCHANGED <<tgs, obs>> /\ Step

\* -------------------------------------------- what an observation shows
Single(x, f) == LET v == RX(x) IN RLe(RAbs(RSub(RX(f), v)), RMul(RPow2(-24), RAdd(RAbs(v), RPow2(-100))))
Mul3(T, p) == [i \in 1..3 |-> RAdd(RDot(SubSeq(T[i], 1, 3), p), T[i][4])]
\* the point in the frame a pose T maps from
Into(T, p) == LET d == [i \in 1..3 |-> RSub(p[i], T[i][4])] IN [j \in 1..3 |-> CRnd(RDot([i \in 1..3 |-> T[i][j]], d))]
Reproj(T, p) == LET x == Force(Into(T, p)) IN
                IF RLt(x[3], RQ(1, 100)) THEN << >> ELSE LET P == Project(cam, x) IN KeyOf(P)
Show(o) ==
  LET n == Line
      tg == tgs[o.tg]
      N == tg.rows * tg.cols
      ix == Seen(o)
  IN
  /\ Chk("target", \E k \in DOMAIN n.tg : n.tg[k] = o.tg)
  /\ Chk("target", n.tgc)
  /\ Chk("seen", Len(n.ok) = N /\ \A i \in 1..N : n.ok[i] = ((i - 1) \in DOMAIN o.pt))
  /\ Chk("seen on the grid", n.okg = n.ok)
  /\ Chk("image points", \A i \in DOMAIN o.pt : n.ip[i + 1] = o.pt[i] /\ n.ig[i + 1] = o.pt[i] /\ n.pts[i + 1] = o.pt[i])
  /\ Chk("size of points", Len(n.pts) = N)
  /\ Chk("indices", n.ix = ix /\ n.n = <<Len(ix), Len(ix), Len(ix)>>)
  /\ Chk("image corners", Len(n.ci) = Len(ix) /\ \A k \in 1..Len(ix) : Single(o.pt[ix[k]][1], n.ci[k][1]) /\ Single(o.pt[ix[k]][2], n.ci[k][2]))
  /\ Chk("target corners", Len(n.ct) = Len(ix) /\ \A k \in 1..Len(ix) : \A j \in 1..3 : Single(tg.pts[ix[k] + 1][j], n.ct[k][j]))
  /\ Chk("some", n.has = (ix # << >>))
  /\ Chk("index refused", n.out)
  /\ Chk("image", <<n.imr, n.imc>> = o.size /\ n.im = o.im)
  /\ Chk("time", n.t = o.t)
  /\ Chk("posed", n.posed = (n.cam /\ o.posed))
  /\ Chk("pose", o.posed => n.T = o.T)
  /\ Chk("reprojection", n.posed =>
       /\ n.n4 = Len(ix) /\ Len(n.rp) = Len(ix)
       /\ LET T == Mat(o.T) IN
          \A k \in 1..Len(ix) :
            LET e == Reproj(T, Vec(tg.pts[ix[k] + 1])) IN
            e = << >> \/ RLt(R(2000), VMax(e)) \/ (AllFinite(n.rp[k]) /\ \A j \in 1..2 : RLe(RAbs(RSub(RX(n.rp[k][j]), e[j])), RQ(1, 500))))
Now(o) == Show(o) /\ obs' = With(obs, Line.o, o) /\ UNCHANGED <<tgs, cam>> /\ Step
Old == obs[Line.o]
Ok == Chk("accepted", ~Line.threw)
Size(o) == LET t == tgs[o.tg] IN t.rows * t.cols

New == Is("obs") /\ Ok /\ Now(NewObs(Line.R, <<0, 0, -1>>))
NewImg == Is("obsimg") /\ Ok /\ Now(NewObs(Line.R, Line.g))
Copy == Is("copy") /\ Ok /\ Now(obs[Line.P])
SetTarget == Is("settarget") /\ IF Line.R = "null" THEN Chk("refused", Line.threw) /\ Now(Old) ELSE Ok /\ Now(Retarget(Old, Line.R))
Update == Is("upd") /\ IF Line.i < 0 \/ Line.i >= Size(Old) THEN Chk("refused", Line.threw) /\ Now(Old) ELSE Ok /\ Now(PutPt(Old, Line.i, Line.x))
Remove == Is("rem") /\ IF Line.i < 0 \/ Line.i >= Size(Old) THEN Chk("refused", Line.threw) /\ Now(Old) ELSE Ok /\ Now(DropPt(Old, Line.i))
Image == Is("img") /\ Ok /\ Now(SetImage(Old, Line.g))
Clear == Is("clr") /\ Ok /\ Now(ClearImage(Old))
Look == Is("look") /\ Ok /\ Now(Old)
Time == Is("time") /\ Ok /\ Now([Old EXCEPT !.t = Line.g])
Pose == Is("pose") /\ Ok /\ Now(SetPose(Old, Line.G))

\* ------------------------------------------------------------ detection
FErr(T, p, k) == LET e == Reproj(T, p) IN
  IF e = << >> THEN << >> ELSE LET d == <<RSub(e[1], RX(k[1])), RSub(e[2], RX(k[2]))>> IN <<RSqrt(RAdd(RMul(d[1], d[1]), RMul(d[2], d[2])), 60)>>
OnLine(tg, F) ==
  LET p(i) == [k \in 1..2 |-> RX(tg.pts[i + 1][k])]
      tol == RPow2(-40) IN
  \A i, j, k \in F : LET a == p(i)  b == p(j)  d == p(k) IN
    RLt(RAbs(RSub(RMul(RSub(b[1], a[1]), RSub(d[2], a[2])), RMul(RSub(b[2], a[2]), RSub(d[1], a[1])))), tol)
Found(i) == Line.gv[i + 1]
Find ==
  /\ Is("find")
  /\ Ok
  /\ Chk("same", Line.same)
  /\ LET n == Line
         tg == tgs[n.R]
         \* the points found; those removed afterwards are judged below
         F == {i \in 0..(Len(n.gp) - 1) : Found(i)}
         S == {i \in 0..(Len(n.ok) - 1) : n.ok[i + 1]}
         base == [SetImage(Retarget(Old, n.R), n.gi) EXCEPT !.t = n.gt, !.pt = [i \in S |-> n.gp[i + 1]], !.posed = n.posed, !.T = n.T]
     IN
     \* the solver behind the pose may refuse points on one line
     /\ Chk("pose solved", n.pnp => OnLine(tg, F))
     /\ Chk("only points found", S \subseteq F)
     /\ Chk("result", n.ret = (~n.pnp /\ n.ok1 /\ (n.notrans = 1 \/ n.posed)))
     /\ Chk("no pose", (~n.ok1 \/ n.notrans = 1) => ~n.posed)
     /\ Chk("pose", (n.ok1 /\ n.notrans = 0 /\ n.clean /\ Cardinality(F) = Len(n.gp)) => n.posed)
     /\ Chk("nothing removed", (~n.posed \/ ~n.filter) => S = F)
     /\ n.posed =>
        \E T \in {Force(Mat(n.T))}, G \in {Force(Mat(n.G))} :
        \E E \in {Force([i \in 1..Len(n.gp) |-> IF Found(i - 1) THEN FErr(T, Vec(tg.pts[i]), n.gp[i]) ELSE << >>])} :
          /\ Chk("pose is the one seen", (n.clean /\ Cardinality(F) = Len(n.gp)) =>
               /\ \A i \in F : E[i + 1] # << >> /\ RLe(E[i + 1][1], RQ(1, 20))
               /\ \A i \in 1..3 : \A j \in 1..4 : RLe(RAbs(RSub(T[i][j], G[i][j])), RMul(RQ(1, 50), RAdd(R(1), IF j = 4 THEN VMax(Force([k \in 1..3 |-> G[k][4]])) ELSE R(0)))))
          /\ (n.filter /\ \A i \in F : E[i + 1] # << >> /\ RLt(E[i + 1][1], R(2000))) =>
             \E es \in {Force([k \in 1..Cardinality(F) |-> E[Sorted(F)[k] + 1][1]])} :
             \E m \in {RDiv(RSum(es), R(Len(es)))} :
             \E v \in {RDiv(RSum([k \in 1..Len(es) |-> RMul(RSub(es[k], m), RSub(es[k], m))]), R(Len(es)))} :
             \E cut \in {RAdd(m, RMul(RX(n.sigma), RSqrt(v, 60)))} :
             LET tol == RQ(1, 200)
                 mn == RX(n.min)
             IN Chk("outliers", \A i \in F :
                  LET e == E[i + 1][1] IN
                  /\ (RLt(RAdd(cut, tol), e) /\ RLt(RAdd(mn, tol), e)) => i \notin S
                  /\ (RLt(RAdd(e, tol), cut) \/ RLt(RAdd(e, tol), mn)) => i \in S)
     /\ Now(base)

Next == Begin \/ MakeTarget \/ Camera \/ New \/ NewImg \/ Copy \/ SetTarget \/ Update \/ Remove \/ Image \/ Clear \/ Look \/ Time \/ Pose \/ Find
=============================================================================

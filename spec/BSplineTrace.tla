----------------------------- MODULE BSplineTrace -----------------------------
(***************************************************************************)
(* A curve of the implementation: its order, knots and coefficients are    *)
(* the state; every change is an action whose outcome the module BSpline   *)
(* prescribes, every query an observation compared with the exact curve.   *)
(***************************************************************************)
EXTENDS BSpline, Trc, FiniteSets

VARIABLES k, T, c, dvs, old
vars == <<l, k, T, c, dvs, old>>

NoCurve == T = <<>>
Dim == IF c = <<>> THEN 0 ELSE Len(c[1])
NC == Len(c)
Ready == Segments(T, k) >= 1
Proper == Ready /\ RLt(TMin(T, k), TMax(T, k))
\* a time closer than 1e-10 to the end is the end
Slack == RDiv(R(1), RMul(R(100000), R(100000)))
AtEnd(t) == RLt(RAbs(RSub(TMax(T, k), t)), Slack)
Clamp(t) == IF AtEnd(t) THEN TMax(T, k) ELSE t
InRange(raw) == Ready /\ RIsFinite(raw) /\ RLe(TMin(T, k), RX(raw)) /\ (RLe(RX(raw), TMax(T, k)) \/ AtEnd(RX(raw)))
RECURSIVE Pow(_, _), Fall(_, _)
Pow(x, e) == IF e = 0 THEN R(1) ELSE RMul(x, Pow(x, e - 1))
Fall(m, d) == IF d = 0 THEN 1 ELSE m * Fall(m - 1, d - 1)
Fallen(d) == IF d >= k THEN R(1) ELSE R(Fall(k - 1, d))
Width(i) == RSub(T[i + 1], T[i])
\* how large the terms are that make up a value of order d on the span i
Scale(i, d) == RDiv(RMul(RPow2(k), Fallen(d)), Pow(Width(i), d))
\* ... at the time of this line; the implementation may take a time within 1e-10 of the end for the end or for itself
Near10 == RX(Line.t) # Clamp(RX(Line.t))
Sc(i, d) == IF Near10 THEN RAdd(Scale(i, d), RMul(RPow2(16), Scale(i, d + 1))) ELSE Scale(i, d)
Loc(i) == SubSeq(c, First(k, i), First(k, i) + k - 1)
Mag(i) == MMax(Loc(i))
Flat(m) == VCat(m)
Ints(a, b) == [i \in 1..b - a + 1 |-> a + i - 1]
\* W (k values) as the Jacobian of the value by the local coefficients
Spread(w, D) == [r \in 1..D |-> [x \in 1..k * D |-> IF 1 + ((x - 1) % D) = r THEN w[1 + ((x - 1) \div D)] ELSE R(0)]]
LRel(s, exact, scale, e) == Len(s) = Len(exact) /\ AllFinite(s) /\ VNearRel(Vec(s), exact, scale, e)
LMRel(s, exact, scale, e) == Len(s) = Len(exact) /\ AllFiniteM(s) /\ (\A i \in 1..Len(s) : Len(s[i]) = Len(exact[i])) /\ MNearRel(Mat(s), exact, scale, e)

\* ------------------------------------------------------------------ changes
Coefs == Mat(Line.c)
KnotsNow == Vec(Line.knots)
Sizes ==
  /\ Line.nc = Len(c') /\ Line.ns = Segments(T', k')
  /\ Line.len = Len(c') * (IF c' = <<>> THEN 0 ELSE Len(c'[1])) /\ Line.nn = Line.len
  /\ dvs' => Line.dv = Line.c
  /\ ~dvs' => Line.dv = <<>>
Adopt(okName, K, C) == T' = K /\ c' = C /\ Chk(okName, Line.ok /\ KnotsNow = K /\ (C = <<>> \/ Coefs = C))
Keep(name) == UNCHANGED <<T, c>> /\ Chk(name, ~Line.ok /\ KnotsNow = T /\ (c = <<>> \/ Coefs = c))
Frame == UNCHANGED <<k, dvs>> /\ Step
Plain == UNCHANGED old
Either(p, name, K, C) == IF p THEN Adopt(name, K, C) ELSE Keep("refused " \o name)

Sorted(K) == \A i \in 1..Len(K) - 1 : RLe(K[i], K[i + 1])
New == Is("new") /\ k' = Line.order /\ T' = <<>> /\ c' = <<>> /\ dvs' = FALSE /\ old' = <<>> /\ Step
       /\ Chk("new", /\ Line.deg = Line.order - 1 /\ Line.min = 2 * Line.order
                     /\ \A i \in 1..5 : Line.cr[i] = i + Line.order - 1 /\ Line.kr[i] = i + 2 * Line.order - 1)
Dv == Is("dv") /\ dvs' = TRUE /\ old' = c /\ UNCHANGED <<k, T, c>> /\ Step
      /\ Chk("design variables", Line.knots = Line.knots /\ KnotsNow = T /\ Coefs = c /\ Line.dv = Line.c)
Set == Is("set") /\ Frame /\ Plain
  /\ LET K == Vec(Line.K) C == Mat(Line.C) IN
     Either(Len(K) >= 2 * k /\ Sorted(K) /\ Len(C) = Len(K) - k, "set", K, C)
  /\ Chk("sizes", Sizes)
SetC == Is("setc") /\ Frame /\ Plain
  /\ LET v == Vec(Line.v) IN
     Either(Len(v) = NC * Dim, "setc", T, [i \in 1..NC |-> SubSeq(v, (i - 1) * Dim + 1, i * Dim)])
  /\ Chk("sizes", Sizes)
SetM == Is("setm") /\ Frame /\ Plain
  /\ LET C == Mat(Line.C) IN Either(Len(C) = NC /\ NCols(C) = Dim, "setm", T, C)
  /\ Chk("sizes", Sizes)
SetL == Is("setl") /\ Frame /\ Plain
  /\ LET v == Vec(Line.v) good == Len(v) = k * Dim /\ InRange(Line.t) IN
     IF ~good THEN Keep("refused setl")
     ELSE LET f == First(k, SpanOf(T, k, Clamp(RX(Line.t)))) IN
          Adopt("setl", T, [i \in 1..NC |-> IF i \in f..f + k - 1 THEN SubSeq(v, (i - f) * Dim + 1, (i - f + 1) * Dim) ELSE c[i]])
  /\ Chk("sizes", Sizes)
Vv == Is("vv") /\ Frame /\ Plain
  /\ Either(Line.i \in 0..NC - 1, "vv", T, [i \in 1..NC |-> IF i = Line.i + 1 THEN Vec(Line.v) ELSE c[i]])
  /\ Chk("sizes", Sizes)
DvSet == Is("dvset") /\ Frame /\ Plain
  /\ Adopt("dvset", T, [c EXCEPT ![Line.i + 1] = Vec(Line.v)]) /\ Chk("sizes", Sizes)
\* the update is one rounded addition
DvUp == Is("dvup") /\ Frame /\ old' = [old EXCEPT ![Line.i + 1] = c[Line.i + 1]]
  /\ T' = T /\ c' = Coefs
  /\ Chk("dvup", /\ Line.ok /\ KnotsNow = T
                 /\ \A i \in 1..NC : i # Line.i + 1 => Coefs[i] = c[i]
                 /\ LET x == VAdd(c[Line.i + 1], Vec(Line.v)) IN VNearRel(Coefs[Line.i + 1], x, VMax(x), 52))
  /\ Chk("sizes", Sizes)
DvRev == Is("dvrev") /\ Frame /\ Plain
  /\ Adopt("dvrev", T, [c EXCEPT ![Line.i + 1] = old[Line.i + 1]]) /\ Chk("sizes", Sizes)

\* ------------------------------------------------------------ initialisation
Uniform(K, a, b, n) ==    \* n segments from a to b, k - 1 knots beyond each end, each knot rounded a few times
  LET dt == RDiv(RSub(b, a), R(n)) IN
  /\ Len(K) = n + 2 * k - 1 /\ Sorted(K)
  /\ \A i \in 1..Len(K) : NearRel(K[i], RAdd(a, RMul(R(i - k), dt)), RAdd(RMax(RAbs(a), RAbs(b)), RMul(R(n + k), dt)), 50)
InitLine == Is("init") /\ Frame /\ Plain
  /\ LET a == RX(Line.a) z == RX(Line.z) p == Vec(Line.p) q == Vec(Line.q) IN
     IF ~(RLt(a, z) /\ Len(p) = Len(q)) THEN Keep("refused init")
     ELSE /\ T' = KnotsNow /\ c' = Coefs
          /\ Chk("init", /\ Line.ok /\ Uniform(KnotsNow, a, z, 1) /\ Len(Coefs) = k
                         /\ LET s == RMax(VMax(p), VMax(q)) IN
                            IF k = 1 THEN VNearRel(Coefs[1], VScale(RQ(1, 2), VAdd(p, q)), s, 40)
                            \* the straight line: its coefficients lie at the averages of k - 1 knots
                            ELSE \A j \in 1..k :
                              LET g == RDiv(RSub(RDiv(RSum([x \in 1..k - 1 |-> KnotsNow[j + x]]), R(k - 1)), a), RSub(z, a))
                              IN VNearRel(Coefs[j], VAdd(p, VScale(g, VSub(q, p))), RMul(R(k), s), 24))
  /\ Chk("sizes", Sizes)
Const == Is("const") /\ Frame /\ Plain
  /\ LET a == RX(Line.a) z == RX(Line.z) p == Vec(Line.p) IN
     IF ~(RLt(a, z) /\ Line.n >= 1 /\ Len(p) >= 1) THEN Keep("refused const")
     ELSE /\ T' = KnotsNow /\ c' = Coefs
          /\ Chk("const", Line.ok /\ Uniform(KnotsNow, a, z, Line.n) /\ Coefs = [i \in 1..Line.n + k - 1 |-> p])
  /\ Chk("sizes", Sizes)
\* the scalar design matrix of values at the times ts
Rows(K, ts, d) ==
  LET n == Len(K) - k
      end == TMax(K, k)
  IN Force([j \in 1..Len(ts) |->
       LET t == IF RLt(RAbs(RSub(ts[j], end)), Slack) THEN end ELSE ts[j]
           i == SpanOf(K, k, t)
           w == Weights(K, k, t, d)
       IN [a \in 1..n |-> IF a - First(k, i) + 1 \in 1..k THEN w[a - First(k, i) + 1] ELSE R(0)]])
MAbsSum(G) == RSum([i \in 1..Len(G) |-> RSum([j \in 1..Len(G[i]) |-> RAbs(G[i][j])])])
\* C minimises the quadratic form (G, b): the gradient vanishes relative to its terms
Stationary(G, C, b) ==
  LET s == RAdd(RMul(MAbsSum(G), MMax(C)), MMax(b)) IN MNearRel(MM(G, C), b, s, 34)
Fit == Is("fit") /\ Frame /\ Plain
  /\ LET ts == Vec(Line.t) P == Mat(Line.P) lam == RX(Line.lam) f == Line.f
         good == Len(ts) = Len(P) /\ Len(ts) >= 2 /\ Sorted(ts)
                 /\ IF f = "knots" THEN Len(Line.K) >= 2 * k /\ Sorted(Vec(Line.K)) ELSE Line.n >= 1
     IN
     IF ~good THEN Keep("refused fit")
     ELSE /\ T' = KnotsNow /\ c' = Coefs
          /\ Chk("fit", Line.ok)
          /\ Chk("knots", IF f = "knots" THEN KnotsNow = Vec(Line.K) ELSE Uniform(KnotsNow, ts[1], ts[Len(ts)], Line.n))
          /\ Chk("fit " \o f,
               /\ Len(Coefs) = Len(KnotsNow) - k
               /\ LET A == Rows(KnotsNow, ts, 0)
                      d == IF k = 2 THEN 1 ELSE 2
                      E == IF f = "2" THEN LET A2 == Rows(KnotsNow, SubSeq(KnotsNow, k, Len(KnotsNow) - k + 1), 2)
                                           IN MScale(RMul(lam, lam), MM(MT(A2), A2))
                           ELSE MScale(lam, Gram(KnotsNow, k, d))
                  IN Stationary(MAdd(MM(MT(A), A), E), Coefs, MM(MT(A), P)))
  /\ Chk("sizes", Sizes)

\* ------------------------------------------------------------ growing, shrinking
Grown(t) ==
  LET K == AddKnots(T, k, t) e == Len(T) - k + 1 s == RAdd(RAbs(t), RMul(R(k), RSub(t, T[e]))) IN
  /\ Len(KnotsNow) = Len(K)
  /\ \A i \in 1..e : KnotsNow[i] = T[i]
  /\ KnotsNow[e + 1] = t
  /\ \A i \in e + 2..Len(K) : NearRel(KnotsNow[i], K[i], s, 49)
  /\ Len(Coefs) = NC + 1 /\ \A i \in 1..NC - 1 : Coefs[i] = c[i]
Joint(t) ==
  LET K == KnotsNow t0 == TMax(T, k) i == SpanOf(K, k, t0)
      s == MMax(SubSeq(Coefs, First(k, i), First(k, i) + k - 1))
  IN [i |-> i, s |-> s, t0 |-> t0]
Add == Is("add") /\ Frame
  /\ LET t == RX(Line.t) p == Vec(Line.p) IN
     IF ~(Ready /\ RLt(TMax(T, k), t) /\ Len(p) = Dim) THEN Keep("refused add") /\ UNCHANGED old
     ELSE /\ T' = KnotsNow /\ c' = Coefs /\ old' = IF dvs THEN Append(old, Coefs[NC + 1]) ELSE old
          /\ Chk("grown", Line.ok /\ Grown(t))
          /\ LET j == Joint(t) s == RMul(RPow2(k), j.s) IN
             /\ Chk("joint", VNearRel(Value(KnotsNow, k, Coefs, j.t0, 0), Value(T, k, c, j.t0, 0), s, 40))
             /\ Chk("meets the point", VNearRel(Value(KnotsNow, k, Coefs, t, 0), p, s, 40))
  /\ Chk("sizes", Sizes)
Add2 == Is("add2") /\ Frame
  /\ LET t == RX(Line.t) p == Vec(Line.p) lam == RX(Line.lam) IN
     IF ~(Ready /\ RLt(TMax(T, k), t) /\ Len(p) = Dim) THEN Keep("refused add2") /\ UNCHANGED old
     ELSE /\ T' = KnotsNow /\ c' = Coefs /\ old' = IF dvs THEN Append(old, Coefs[NC + 1]) ELSE old
          /\ Chk("grown", Line.ok /\ Grown(t))
          \* the last two coefficients minimise the misfit at the joint and the point, and lam times the second derivatives there
          /\ LET j == Joint(t)
                 W == [x \in 1..4 |-> Weights(KnotsNow, k, IF x % 2 = 1 THEN j.t0 ELSE t, IF x > 2 THEN 2 ELSE 0)]
                 f == First(k, j.i)
                 b(x) == IF x = 1 THEN Value(T, k, c, j.t0, 0) ELSE IF x = 2 THEN p ELSE VZero(Dim)
                 res == [x \in 1..4 |-> LET w == IF x > 2 THEN VScale(lam, W[x]) ELSE W[x]
                                            v == IF x > 2 THEN Comb(w, Coefs, f) ELSE VSub(Comb(w, Coefs, f), b(x)) IN [w |-> w, v |-> v]]
                 mag == RAdd(RMul(RPow2(2 * k), j.s), VMax(p))
                 sc == RAdd(R(1), RMul(RMul(lam, lam), Pow(RDiv(R(2 * k * k), RSub(t, j.t0)), 4)))
             IN Chk("smooth", \A m \in {k - 1, k} : \A r \in 1..Dim :
                    NearRel(RSum([x \in 1..4 |-> RMul(res[x].w[m], res[x].v[r])]), R(0), RMul(mag, sc), 40))
  /\ Chk("sizes", Sizes)
Rm == Is("rm") /\ Frame
  /\ Adopt("removed", IF c = <<>> THEN T ELSE Tail(T), IF c = <<>> THEN c ELSE Tail(c))
  /\ old' = (IF old = <<>> THEN old ELSE Tail(old))
  /\ Chk("sizes", Sizes)

\* -------------------------------------------------------------- observations
Seen(op, P) == Is(op) /\ UNCHANGED <<k, T, c, dvs, old>> /\ Step /\ P
Span == Seen("span", Chk("span", Line.ok = Ready /\ (Ready =>
          RX(Line.a) = TMin(T, k) /\ RX(Line.z) = TMax(T, k) /\ Line.a2 = Line.a /\ Line.z2 = Line.z)))
AtT == Seen("at",
  LET good == InRange(Line.t) /\ Line.d >= 0 IN
  Chk("in range", Line.ok = good) /\
  (good /\ Proper =>
     LET t == Clamp(RX(Line.t)) d == Line.d i == SpanOf(T, k, t)
         w == Weights(T, k, t, d)
         x == Comb(w, c, First(k, i))
         sw == Sc(i, d) s == RMul(R(k), RMul(sw, Mag(i)))
         u == RDiv(RSub(t, T[i]), Width(i))
         J == Spread(w, Dim)
         su == IF Near10 THEN sw ELSE RDiv(Fallen(d), Pow(Width(i), d))
         mono == [e \in 1..k |-> IF e - 1 < d THEN R(0) ELSE RDiv(RMul(R(Fall(e - 1, d)), Pow(u, e - 1 - d)), Pow(Width(i), d))]
     IN /\ ChkV("value", \A f \in {"x", "x1", "x2"} \cup (IF d = 0 THEN {"x0"} ELSE {}) : LRel(Line[f], x, s, 44), <<[r \in 1..Dim |-> RStr(RRnd(x[r], 40))]>>)
        /\ Chk("jacobian", \A f \in {"J", "J2", "Phi", "Phi2"} : LMRel(Line[f], J, sw, 44))
        /\ Chk("indices", Line.ci = Ints((First(k, i) - 1) * Dim, (First(k, i) + k - 1) * Dim - 1))
        /\ Chk("powers", LRel(Line.u, mono, su, 46))
        /\ Chk("power matrix", Len(Line.U) = k * Dim /\ \A r \in 1..k * Dim : \A q \in 1..Dim :
               IF (r - 1) \div k = q - 1 THEN Line.U[r][q] = Line.u[1 + ((r - 1) % k)] ELSE RSign(RX(Line.U[r][q])) = 0)))
LocAt == Seen("loc",
  LET good == InRange(Line.t) IN
  Chk("in range", Line.ok = good) /\
  (good /\ Proper =>
     LET t == Clamp(RX(Line.t)) i == SpanOf(T, k, t) f == First(k, i)
         w == Weights(T, k, t, 0)
         cum == [j \in 1..k |-> RSum(SubSeq(w, j, k))]
         full(v, before) == [a \in 1..NC |-> IF a < f THEN before ELSE IF a > f + k - 1 THEN R(0) ELSE v[a - f + 1]]
     IN /\ Chk("local", /\ Line.seg = f - 1 /\ Mat(Line.lm) = Loc(i) /\ Vec(Line.lv) = Flat(Loc(i))
                        /\ Line.li = Ints((f - 1) * Dim, (f + k - 1) * Dim - 1) /\ Line.lvv = Ints(f - 1, f + k - 2))
        /\ Chk("bi", LRel(Line.bi, w, Sc(i, 0), 46))
        /\ Chk("cumulative bi", LRel(Line.cb, cum, Sc(i, 0), 45))
        /\ Chk("full bi", LRel(Line.gb, full(w, R(0)), Sc(i, 0), 46))
        /\ Chk("full cumulative bi", LRel(Line.gc, full(cum, R(1)), Sc(i, 0), 45))))
Seg == Seen("seg",
  LET good == Line.i \in 0..Segments(T, k) - 1 IN
  Chk("segment in range", Line.ok = good) /\
  (good =>
     LET i == Line.i + k f == Line.i + 1
         D == Width(i) IN
     /\ Chk("segment", /\ RX(Line.a) = T[i] /\ RX(Line.z) = T[i + 1] /\ Vec(Line.sc) = Flat(Loc(i))
                       /\ Line.si = Ints((f - 1) * Dim, (f + k - 1) * Dim - 1) /\ Line.sv = Ints(f - 1, f + k - 2))
     /\ Nonempty(T, i) =>
        LET P == Basis(T, k, i) IN
        /\ Chk("basis", LMRel(Line.B, MT(P), RPow2(k), 46))
        /\ Chk("Vi", LMRel(Line.V, [a \in 1..k |-> [b \in 1..k |-> RDiv(D, R(a + b - 1))]], D, 48))
        /\ Chk("Di", LMRel(Line.D, [a \in 1..k |-> [b \in 1..k |-> IF b = a + 1 THEN RDiv(R(a), D) ELSE R(0)]], RDiv(R(k), D), 48))
        /\ Chk("Dii", \A a, b \in 1..k * Dim :
               IF (a - 1) \div k = (b - 1) \div k THEN Line.DD[a][b] = Line.D[1 + ((a - 1) % k)][1 + ((b - 1) % k)] ELSE RSign(RX(Line.DD[a][b])) = 0)
        /\ Chk("Mi", \A a, b \in 1..k * Dim :
               IF (a - 1) \div k = (b - 1) % Dim THEN Line.M[a][b] = Line.B[1 + ((a - 1) % k)][1 + ((b - 1) \div Dim)] ELSE RSign(RX(Line.M[a][b])) = 0)))
VvGet == Seen("vvget", Chk("vvget", Line.ok = (Line.i \in 0..NC - 1) /\ (Line.ok => Vec(Line.x) = c[Line.i + 1])))
IntT == Seen("int",
  LET good == InRange(Line.a) /\ InRange(Line.z) IN
  Chk("in range", Line.ok = good) /\
  (good /\ Proper =>
     LET a == Clamp(RX(Line.a)) z == Clamp(RX(Line.z))
         x == VSub(Primitive(T, k, c, z), Primitive(T, k, c, a))
         s == RMul(RPow2(k), RMul(MMax(c), RSub(TMax(T, k), TMin(T, k))))
         loose == IF (RX(Line.a) = a /\ RX(Line.z) = z) THEN s ELSE RAdd(s, RMul(RPow2(14 + k), MMax(c)))
     IN Chk("integral", LRel(Line.x, x, loose, 44) /\ Line.x2 = Line.x)))
Symmetric(W) == \A i, j \in 1..Len(W) : RLe(RAbs(RSub(W[i][j], W[j][i])), RMul(RPow2(-52), R(10)))
Kron(G, W) == LET D == Len(W) IN
  [x \in 1..Len(G) * D |-> [y \in 1..Len(G) * D |-> RMul(G[1 + ((x - 1) \div D)][1 + ((y - 1) \div D)], W[1 + ((x - 1) % D)][1 + ((y - 1) % D)])]]
DiagOf(W) == [i \in 1..Len(W) |-> [j \in 1..Len(W) |-> IF i = j THEN W[i][j] ELSE R(0)]]
QScale(i, d, W) == IF ~Nonempty(T, i) THEN R(0)
  ELSE RMul(RMul(RMul(R(k * k), RPow2(2 * k)), MMax(W)), RDiv(RMul(Fallen(d), Fallen(d)), IF d = 0 THEN RDiv(R(1), Width(i)) ELSE Pow(Width(i), 2 * d - 1)))
Quad == Seen("quad",
  LET W == Mat(Line.W) good == Line.i \in 0..Segments(T, k) - 1 /\ Len(W) = Dim /\ NCols(W) = Dim /\ Symmetric(W) IN
  Chk("in range", Line.ok = good) /\
  (good => LET i == Line.i + k G == GramSpan(T, k, i, Line.d) s == QScale(i, Line.d, W) IN
     /\ Chk("segment quadratic", LMRel(Line.Q, Kron(G, W), s, 44))
     /\ Chk("segment quadratic diag", LMRel(Line.QD, Kron(G, DiagOf(W)), s, 44))
     /\ Chk("segment root", LET root == Mat(Line.R) IN MNearRel(MM(MT(root), root), Kron(G, W), s, 40))))
CScale(d, W) == LET RECURSIVE S(_)
                    S(i) == IF i < k THEN R(0) ELSE RAdd(S(i - 1), QScale(i, d, W))
                IN S(Len(T) - k)
CurveQ == Seen("curve",
  LET W == Mat(Line.W) good == Len(W) = Dim /\ NCols(W) = Dim /\ Symmetric(W) IN
  Chk("in range", Line.ok = good) /\
  (good => LET G == Gram(T, k, Line.d) s == CScale(Line.d, W) IN
     /\ Chk("curve quadratic", LMRel(Line.Q, Kron(G, W), s, 44) /\ LMRel(Line.S, Kron(G, W), s, 44))
     /\ Chk("curve quadratic diag", LMRel(Line.QD, Kron(G, DiagOf(W)), s, 44) /\ LMRel(Line.SD, Kron(G, DiagOf(W)), s, 44))))

\* ---------------------------------------------- expressions and error terms
ChainM == <<[q \in 1..Dim |-> R(q)], [q \in 1..Dim |-> R(2 - 3 * (q - 1))]>>
\* jacobians in any order, one for each local coefficient (a zero one may be left out)
JacIs(idx, ms, f, M, w, sc) ==
  /\ Len(idx) = Len(ms) /\ Cardinality({idx[a] : a \in 1..Len(idx)}) = Len(idx)
  /\ \A a \in 1..Len(idx) : idx[a] \in f - 1..f + k - 2 /\ LMRel(ms[a], MScale(w[idx[a] - f + 2], M), sc, 42)
  /\ \A j \in 1..k : (\E a \in 1..Len(idx) : idx[a] = f + j - 2) \/ RSign(w[j]) = 0
RangeOf(s) == {s[i] : i \in 1..Len(s)}
ExprT == Seen("expr",
  LET good == InRange(Line.t) /\ Line.d >= 0 IN
  Chk("in range", Line.ok = good) /\
  (good /\ Proper =>
     LET t == Clamp(RX(Line.t)) d == Line.d i == SpanOf(T, k, t) f == First(k, i)
         w == Weights(T, k, t, d)
         sw == Sc(i, d) s == RMul(R(k), RMul(sw, Mag(i)))
     IN /\ Chk("expression", LRel(Line.x, Comb(w, c, f), s, 44) /\ Line.x2 = Line.x)
        /\ Chk("expression jacobian", JacIs(Line.ji, Line.jm, f, MId(Dim), w, sw))
        /\ Chk("chain rule", JacIs(Line.ai, Line.am, f, ChainM, w, RMul(R(9), sw)))
        /\ Chk("expression variables", RangeOf(Line.ds) = f - 1..f + k - 2 /\ Len(Line.ds) = k /\ Line.gs = Ints(f - 1, f + k - 2))))
Motion == Seen("motion",
  LET W == Mat(Line.W)
      good == Len(W) = Dim /\ NCols(W) = Dim /\ Symmetric(W)
      d == IF k <= Line.d /\ k >= 2 THEN k - 1 ELSE Line.d IN
  Chk("motion", Line.ok = good) /\
  (good =>
    LET Q == Kron(Gram(T, k, d), W) s == CScale(d, W) n == NC * Dim
        cc == Flat(c) Qc == MV(Q, cc) sv == RMul(R(k * Dim), RMul(s, VMax(cc)))
        act == {v \in 1..NC : Line.idx[v] >= 0}
    IN /\ Chk("motion weight", LMRel(Line.Q, Q, s, 44))
       /\ Chk("motion error", LNear(Line.e, RDot(cc, Qc), RMul(R(n), RMul(sv, VMax(cc))), 44))
       /\ Chk("motion rhs", LRel(Line.r, VNeg(Qc), sv, 44))
       /\ act # {} =>
          LET m == Cardinality(act)
              Of(b) == CHOOSE v \in act : Line.idx[v] = b
              Src(x) == (Of((x - 1) \div Dim) - 1) * Dim + 1 + ((x - 1) % Dim)
          IN /\ Chk("motion gradient", Len(Line.b) = m * Dim /\ LRel(Line.b, [x \in 1..m * Dim |-> RNeg(Qc[Src(x)])], sv, 44))
             /\ Chk("motion hessian", Len(Line.H) = m * Dim /\
                  LET H == Mat(Line.H) IN \A x, y \in 1..m * Dim :
                    ((x - 1) \div Dim <= (y - 1) \div Dim) => NearRel(H[x][y], Q[Src(x)][Src(y)], s, 44))))
Simple == Seen("simple",
  LET good == InRange(Line.t) IN
  Chk("in range", Line.ok = good) /\
  (good /\ Proper =>
     LET t == Clamp(RX(Line.t)) d == Line.d i == SpanOf(T, k, t) f == First(k, i)
         w == Weights(T, k, t, d)
         sw == Sc(i, d) s == RAdd(RMul(R(k), RMul(sw, Mag(i))), VMax(Vec(Line.y)))
         e == VSub(Comb(w, c, f), Vec(Line.y))
     IN /\ Chk("error", NearRel(RX(Line.e), VSq(e), RMul(R(Dim), RMul(s, s)), 42))
        /\ Chk("error jacobian", JacIs(Line.ji, Line.jm, f, MId(Dim), w, sw))))

Begin == Is("begin") /\ k' = 1 /\ T' = <<>> /\ c' = <<>> /\ dvs' = FALSE /\ old' = <<>> /\ Step
Init == l = 1 /\ k = 1 /\ T = <<>> /\ c = <<>> /\ dvs = FALSE /\ old = <<>>
Next == Begin \/ New \/ Dv \/ Set \/ SetC \/ SetM \/ SetL \/ Vv \/ DvSet \/ DvUp \/ DvRev \/ InitLine \/ Const \/ Fit \/ Add \/ Add2 \/ Rm
        \/ Span \/ AtT \/ LocAt \/ Seg \/ VvGet \/ IntT \/ Quad \/ CurveQ \/ ExprT \/ Motion \/ Simple
=============================================================================

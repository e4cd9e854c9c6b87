------------------------------ MODULE TagTrace ------------------------------
(***************************************************************************)
(* The tag families, the grouping and fitting steps, the detector on drawn *)
(* images and the April grid of the code against Tags.tla.                 *)
(***************************************************************************)
EXTENDS Tags, Exact, Trc

VARIABLES fam, part, rep, grid, april
vars == <<l, fam, part, rep, grid, april>>
Init == l = 1 /\ fam = << >> /\ part = << >> /\ rep = << >> /\ grid = << >> /\ april = << >>
Begin == Is("begin") /\ fam' = << >> /\ part' = << >> /\ rep' = << >> /\ grid' = << >> /\ april' = << >> /\ Step
Keep == UNCHANGED <<fam, part, rep, grid, april>>

\* a word of eleven digits as one of n, if it fits
Short(w, n) == TLCEval(SubSeq(w, 1, n))
Fill(w, n) == \A k \in (n + 1)..Len(w) : w[k] = 0
Digits(F) == (F.bits + 5) \div 6

\* -------------------------------------------------------------- families
Table ==
  /\ Is("table")
  /\ LET n == Line   F == Family(n.n) IN
     /\ Chk("shape of the family", n.bits = F.bits /\ n.dim = F.dim /\ n.min = F.min /\ n.border = n.b)
     /\ Chk("table", Len(n.codes) = Len(F.codes))
     /\ Chk("table", \A i \in 1..Len(F.codes) : Short(n.codes[i], Digits(F)) = F.codes[i] /\ Fill(n.codes[i], Digits(F)))
     /\ fam' = [name |-> n.n, b |-> n.b, erb |-> n.erb]
  /\ UNCHANGED <<part, rep, grid, april>> /\ Step
Bits == /\ Is("bits") /\ Chk("error bits", Line.erb = Line.n) /\ fam' = [fam EXCEPT !.erb = Line.n]
        /\ UNCHANGED <<part, rep, grid, april>> /\ Step
Frac == /\ Is("frac") /\ LET F == Family(fam.name)   e == (((F.min - 1) \div 2) * Line.fn) \div Line.fd IN
                         Chk("error fraction", Line.erb = e) /\ fam' = [fam EXCEPT !.erb = e]
        /\ UNCHANGED <<part, rep, grid, april>> /\ Step
\* r: a record with obs, code, id, ham, rot, good, for an observed word w (of the family's digits)
Decoded(r, w, ds, erb) ==
  LET F == Family(fam.name)   m == Nearest(ds) IN
  /\ Chk("observed word", Short(r.obs, Digits(F)) = w /\ Fill(r.obs, Digits(F)))
  /\ Chk("distance", r.ham = m)
  /\ Chk("identity", r.id >= 0 /\ r.id < Len(F.codes) /\ r.rot \in 0..3)
  /\ Chk("identity", ds[r.rot + 1][r.id + 1] = m)
  /\ Chk("good", r.good = (m <= erb))
  /\ Chk("code", Short(r.code, Digits(F)) = F.codes[r.id + 1] /\ Fill(r.code, Digits(F)))
Dec ==
  /\ Is("dec")
  /\ LET F == Family(fam.name) IN
     \E w \in {Short(Line.w, Digits(F))} :
       \E ds \in {Distances(Turns(w, F.dim), F.codes)} : Decoded(Line, w, ds, fam.erb)
  /\ Keep /\ Step
Rotate == /\ Is("rot") /\ Chk("turned", Line.r = Turn(Line.w, Line.d)) /\ Keep /\ Step
Hamming == /\ Is("ham")
           /\ Chk("hamming distance", Line.h = Dist(Line.a, Line.c))
           /\ Chk("bit count", Line.pa = Weight(Line.a) /\ Line.pr = Weight(Line.a))
           /\ Keep /\ Step

\* ------------------------------------------------------------- partition
Uf == /\ Is("uf") /\ part' = Classes(Line.n) /\ rep' = [i \in 0..(Line.n - 1) |-> i]
      /\ UNCHANGED <<fam, grid, april>> /\ Step
Joined ==
  /\ Is("join")
  /\ LET n == Line   p == Join(part, n.a, n.c) IN
     /\ Chk("joined", n.r \in p[n.a])
     /\ Chk("joined", n.c \in part[n.a] => n.r = rep[n.a])
     /\ part' = p /\ rep' = [i \in DOMAIN rep |-> IF i \in p[n.a] THEN n.r ELSE rep[i]]
  /\ UNCHANGED <<fam, grid, april>> /\ Step
Rep == /\ Is("rep") /\ Chk("representative", Line.r = rep[Line.a]) /\ Keep /\ Step
Size == /\ Is("size") /\ Chk("size of the set", Line.s = Cardinality(part[Line.a])) /\ Keep /\ Step
Snap == /\ Is("ufsnap")
        /\ Chk("representative", \A i \in DOMAIN rep : Line.r[i + 1] = rep[i])
        /\ Chk("size of the set", \A i \in DOMAIN rep : Line.s[i + 1] = Cardinality(part[i]))
        /\ Keep /\ Step

\* ------------------------------------------------------ neighbour search
V(s) == [i \in 1..Len(s) |-> RX(s[i])]
Grid == /\ Is("grid") /\ grid' = [v |-> Line.v, at |-> << >>] /\ UNCHANGED <<fam, part, rep, april>> /\ Step
GridAdd == /\ Is("gadd") /\ grid' = [grid EXCEPT !.at = Append(@, Line.at)] /\ UNCHANGED <<fam, part, rep, april>> /\ Step
GridFind ==
  /\ Is("gfind")
  /\ LET n == Line   b == V(grid.v)   q == V(n.at)   r == RX(n.range)
         in(p) == RLe(b[1], p[1]) /\ RLe(b[2], p[2]) /\ RLe(p[1], b[3]) /\ RLe(p[2], b[4])
         near(p) == RLe(RAbs(RSub(p[1], q[1])), r) /\ RLe(RAbs(RSub(p[2], q[2])), r)
         far(p) == LET m == RAdd(r, RMul(R(2), b[5])) IN RLt(m, RAbs(RSub(p[1], q[1]))) \/ RLt(m, RAbs(RSub(p[2], q[2])))
     IN
     /\ Chk("found twice", \A i, j \in 1..Len(n.f) : i # j => n.f[i] # n.f[j])
     /\ Chk("found", \A i \in 1..Len(n.f) : n.f[i] \in 1..Len(grid.at))
     /\ Chk("neighbour missed", \A i \in 1..Len(grid.at) : in(V(grid.at[i])) /\ near(V(grid.at[i])) => \E k \in 1..Len(n.f) : n.f[k] = i)
     /\ Chk("far one found", \A k \in 1..Len(n.f) : in(q) => ~far(V(grid.at[n.f[k]])))
  /\ Keep /\ Step

\* ------------------------------------------------------- lines and planes
Cr(a, b) == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
Sub2(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
Along(a, t, u) == <<RAdd(a[1], RMul(t, u[1])), RAdd(a[2], RMul(t, u[2]))>>
Close(a, b, e) == RLe(RAbs(RSub(a, b)), e)
Close2(a, b, e) == Close(a[1], b[1], e) /\ Close(a[2], b[2], e)
MaxAbs(s) == LET RECURSIVE go(_, _)
                 go(m, i) == IF i = 0 THEN m ELSE go(IF RLt(m, RAbs(s[i])) THEN RAbs(s[i]) ELSE m, i - 1) IN go(R(1), Len(s))
E24 == RPow2(-24)
Meet ==
  /\ Is("cross")
  /\ LET v == V(Line.v)
         p == <<v[1], v[2]>>   u == Sub2(<<v[3], v[4]>>, p)
         q == <<v[5], v[6]>>   w == Sub2(<<v[7], v[8]>>, q)
         det == Cr(u, w)
     IN IF RSign(det) = 0 THEN Chk("parallel", Line.x = <<"-1", "0">> \/ V(Line.x) = <<R(-1), R(0)>>)
        ELSE LET t == RDiv(Cr(Sub2(q, p), w), det)
                 d == Sub2(q, p)
                 big == RAdd(RAdd(RAbs(RMul(d[1], w[2])), RAbs(RMul(d[2], w[1]))), RAbs(det))
                 e == RMul(RMul(R(16), E24), RAdd(MaxAbs(v), RMul(RMul(R(2), MaxAbs(u)), RDiv(big, RAbs(det)))))
             IN Chk("intersection", Close2(V(Line.x), Along(p, t, u), e))
  /\ Keep /\ Step
Coord ==
  /\ Is("coord")
  /\ LET v == V(Line.v)
         p == <<v[1], v[2]>>   u == Sub2(<<v[3], v[4]>>, p)   x == <<v[5], v[6]>>
         uu == RDot(u, u)
         len == RSqrt(uu, 40)
         e == RMul(RMul(R(64), E24), MaxAbs(v))
     IN
     /\ Chk("coordinate", Close(RX(Line.at), RDiv(RDot(x, u), len), e))
     /\ Chk("point on the line", Close2(V(Line.foot), Along(p, RDiv(RDot(Sub2(x, p), u), uu), u), e))
     \* the point of a coordinate: on the line, and back
     /\ Chk("point of a coordinate", Close(RDiv(RDot(V(Line.there), u), len), v[7], e))
     /\ Chk("point of a coordinate", Close(RDiv(Cr(Sub2(V(Line.there), p), u), len), R(0), e))
     /\ Chk("back", Close(RX(Line.back), v[7], e))
  /\ Keep /\ Step
Fit ==
  /\ Is("fit")
  /\ \E v \in {V(Line.v)} :
     LET n == Len(v) \div 3
         x(i) == v[3 * i - 2]   y(i) == v[3 * i - 1]   w(i) == v[3 * i]
         Sum(f(_)) == RSum([i \in 1..n |-> f(i)])
         W == Sum(w)
         mx == RDiv(Sum(LAMBDA i : RMul(w(i), x(i))), W)
         my == RDiv(Sum(LAMBDA i : RMul(w(i), y(i))), W)
         c2(f(_), g(_)) == RDiv(Sum(LAMBDA i : RMul(w(i), RMul(f(i), g(i)))), W)
         dx(i) == RSub(x(i), mx)   dy(i) == RSub(y(i), my)
         cxx == c2(dx, dx)   cyy == c2(dy, dy)   cxy == c2(dx, dy)
         u == V(Line.u)
         o == <<RNeg(u[2]), u[1]>>
         C(a, b) == RAdd(RMul(a[1], RAdd(RMul(cxx, b[1]), RMul(cxy, b[2]))), RMul(a[2], RAdd(RMul(cxy, b[1]), RMul(cyy, b[2]))))
         m == MaxAbs(v)
         e == RMul(RMul(R(256), E24), RMul(m, m))
         s(i) == RDot(<<x(i), y(i)>>, u)
         lo == CHOOSE i \in 1..n : \A j \in 1..n : RLe(s(i), s(j))
         hi == CHOOSE i \in 1..n : \A j \in 1..n : RLe(s(j), s(i))
         on(i) == Along(<<mx, my>>, RSub(s(i), RDot(<<mx, my>>, u)), u)
     IN
     /\ Chk("unit direction", Close(RDot(u, u), R(1), RMul(R(8), E24)))
     /\ Chk("centre", Close2(V(Line.at), <<mx, my>>, RMul(RMul(R(64), E24), m)))
     /\ Chk("principal direction", Close(C(u, o), R(0), e) /\ RLe(C(o, o), RAdd(C(u, u), e)))
     /\ Chk("ends", Close2(V(Line.p0), on(lo), RMul(R(1024), RMul(E24, m))) /\ Close2(V(Line.p1), on(hi), RMul(R(1024), RMul(E24, m))))
  /\ Keep /\ Step
Mod ==
  /\ Is("mod")
  /\ LET v == RX(Line.v)   r == RX(Line.r)   pi == RPi(60)
         e == RMul(RMul(R(4), E24), RAdd(RAbs(v), R(4)))
         k == RDiv(RSub(v, r), RMul(R(2), pi))
         near == RFloor(RAdd(k, RQ(1, 2))) IN
     /\ Chk("angle range", RLe(RAbs(r), RAdd(pi, e)))
     /\ Chk("angle", Close(RMul(RSub(k, near), RMul(R(2), pi)), R(0), e))
  /\ Keep /\ Step
Homo ==
  /\ Is("homo")
  /\ LET v == V(Line.v)   n == Len(v) \div 4
         H == [i \in 1..3 |-> V(Line.H[i])]
         at == <<RQ(1, 4), RQ(-1, 2), R(1)>>
         y == [i \in 1..3 |-> RDot(H[i], at)]
         c == V(Line.cxy) IN
     /\ Chk("centre", Line.cxy = Line.c)
     /\ Chk("correspondence", \A i \in 1..n : Close2(V(Line.p[i]), <<v[4 * i - 1], v[4 * i]>>, RQ(1, 200)))
     /\ Chk("projection", Close2(V(Line.inner), <<RAdd(RDiv(y[1], y[3]), c[1]), RAdd(RDiv(y[2], y[3]), c[2])>>, RQ(1, 2000)))
  /\ Keep /\ Step

\* ------------------------------------------------------- grey and filters
Gray ==
  /\ Is("gray")
  /\ \E v \in {V(Line.v)} :
     LET n == Len(v) \div 3
         x(i) == v[3 * i - 2]   y(i) == v[3 * i - 1]   g(i) == v[3 * i]
         a == V(Line.at)   c == V(Line.at4)
         e == RPow2(-12)
         \* the model the four corners determine
         M(s, t) == RAdd(RAdd(c[1], RMul(s, RSub(c[2], c[1]))),
                         RAdd(RMul(t, RSub(c[3], c[1])), RMul(RMul(s, t), RAdd(RSub(c[1], c[2]), RSub(c[4], c[3])))))
         res(i) == RSub(g(i), M(x(i), y(i)))
         Sum(f(_)) == RSum([i \in 1..n |-> f(i)])
         mean == RDiv(Sum(g), R(n))
     IN
     /\ Chk("observations", Line.nobs = n)
     /\ Chk("bilinear", \A i \in 1..n : Close(a[i], M(x(i), y(i)), e))
     /\ Chk("bilinear", Close(c[5], M(RQ(1, 4), RQ(1, 2)), e))
     /\ IF n >= 6
        THEN /\ Chk("least squares", Close(Sum(res), R(0), RMul(R(n), e)))
             /\ Chk("least squares", Close(Sum(LAMBDA i : RMul(x(i), res(i))), R(0), RMul(R(n), e)))
             /\ Chk("least squares", Close(Sum(LAMBDA i : RMul(y(i), res(i))), R(0), RMul(R(n), e)))
             /\ Chk("least squares", Close(Sum(LAMBDA i : RMul(RMul(x(i), y(i)), res(i))), R(0), RMul(R(n), e)))
        ELSE Chk("mean", \A i \in 1..5 : Close(c[i], mean, RMul(RPow2(-20), R(4))))
  /\ Keep /\ Step
Gauss ==
  /\ Is("gauss")
  /\ LET n == Line.n   s == RX(Line.sigma)   f == V(Line.f)
         mid == n \div 2
         w(i) == LET j == i - 1 - mid IN RExp(RNeg(RDiv(R(j * j), RMul(R(2), RMul(s, s)))), 60) IN
     /\ Chk("filter length", Len(f) = n)
     /\ IF RSign(s) = 0 THEN Chk("filter", \A i \in 1..n : REq(f[i], IF i = mid + 1 THEN R(1) ELSE R(0)))
        ELSE \E ws \in {Force([i \in 1..n |-> w(i)])} : \E S \in {RSum(ws)} :
               Chk("filter", \A i \in 1..n : Close(f[i], RDiv(ws[i], S), RPow2(-21)))
  /\ Keep /\ Step
\* the row s, continued by its ends, seen through f
Through(s, f) ==
  LET n == Len(s)   h == Len(f) \div 2
      at(i) == s[IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i] IN
  TLCEval([i \in 1..n |-> RDot([j \in 1..Len(f) |-> at(i + h - j + 1)], f)])
Filter ==
  /\ Is("filt")
  /\ LET w == Line.w   hh == Line.h IN
     \E p \in {Force(V(Line.in))}, fh \in {Force(V(Line.fh))}, fv \in {Force(V(Line.fv))} :
     \E r \in {Force([y \in 1..hh |-> Through([x \in 1..w |-> p[(y - 1) * w + x]], fh)])} :
     \E o \in {Force([x \in 1..w |-> Through([y \in 1..hh |-> r[y][x]], fv)])} :
       LET e == RMul(RPow2(-18), RMul(MaxAbs(p), R(4))) IN
       Chk("filtered image", \A x \in 1..w, y \in 1..hh : Close(RX(Line.out[(y - 1) * w + x]), o[x][y], e))
  /\ Keep /\ Step
Norm ==
  /\ Is("norm")
  /\ \E p \in {Force(V(Line.in))} :
     LET lo == CHOOSE a \in {p[i] : i \in 1..Len(p)} : \A i \in 1..Len(p) : RLe(a, p[i])
         hi == CHOOSE a \in {p[i] : i \in 1..Len(p)} : \A i \in 1..Len(p) : RLe(p[i], a) IN
     Chk("normalised", \A i \in 1..Len(p) : Close(RX(Line.out[i]), RDiv(RSub(p[i], lo), RSub(hi, lo)), RPow2(-20)))
  /\ Keep /\ Step

\* ---------------------------------------------------------- whole images
Tol == RQ(2, 5)
\* the detections f of drawn tags t (word and corners from the bottom left, counter-clockwise)
Matches(f, t, ds, least) ==   \* f is t: its corners are t's, starting where the word is upright
  \E m \in 0..3 :
    /\ ds[m + 1][f.id + 1] = least
    /\ \A i \in 0..3 : Close2(V(f.p[i + 1]), V(t.p[((i + m) % 4) + 1]), Tol)
Scene ==
  /\ Is("tags")
  /\ LET n == Line   F == Family(fam.name)   T == n.t   D == n.f IN
     /\ Chk("identity", \A j \in 1..Len(D) : D[j].id \in 0..(Len(F.codes) - 1))
     /\ \E ws \in {TLCEval([k \in 1..Len(T) |-> Turns(Short(T[k].w, Digits(F)), F.dim)])} :
        \E ds \in {TLCEval([k \in 1..Len(T) |-> Distances(ws[k], F.codes)])} :
        \E least \in {TLCEval([k \in 1..Len(T) |-> Nearest(ds[k])])} :
        \E is \in {TLCEval([j \in 1..Len(D) |-> {k \in 1..Len(T) : Matches(D[j], T[k], ds[k], least[k])}])} :
          /\ Chk("tag reported that was not drawn", \A j \in 1..Len(D) : is[j] # {})
          /\ Chk("tag not found", \A k \in 1..Len(T) : least[k] <= 1 => \E j \in 1..Len(D) : k \in is[j])
          /\ Chk("tag reported twice", \A i, j \in 1..Len(D) : i # j => is[i] \cap is[j] = {})
          /\ \A j \in 1..Len(D) :
               LET k == CHOOSE k \in is[j] : TRUE
                   o == Short(D[j].obs, Digits(F))
                   at == {s \in 1..4 : ws[k][s] = o}
                   s == CHOOSE s \in at : TRUE IN
               /\ Chk("observed word", at # {})
               /\ Decoded(D[j], o, [m \in 1..4 |-> ds[k][(((s - 1) + (m - 1)) % 4) + 1]], 1)
               \* the homography takes the tag's own corners to the corners reported
               /\ Chk("homography", \A i \in 1..4 : Close2(V(D[j].q[i]), V(D[j].p[i]), RQ(1, 100)))
               /\ Chk("centre inside", LET c == V(D[j].c)   P == [i \in 1..4 |-> V(D[j].p[i])] IN
                      \A i \in 1..4 : RSign(Cr(Sub2(P[(i % 4) + 1], P[i]), Sub2(c, P[i]))) < 0)
  /\ Keep /\ Step
\* a pattern that looks the same turned may be numbered from any of its corners
Board ==
  /\ Is("board")
  /\ LET n == Line   r == n.r   c == n.c
         same(i, j) == Close2(V(n.pts[i + 1]), V(n.at[j + 1]), IF n.k = "checker" THEN (IF n.sub THEN RQ(1, 2) ELSE RQ(5, 2)) ELSE R(1))
         y(i) == i \div c   x(i) == i % c
         As(f(_)) == \A i \in 0..(r * c - 1) : same(i, f(i))
     IN
     /\ Chk("board not found", n.ok \/ n.k = "circle")
     /\ n.ok =>
        /\ Chk("points", Len(n.seen) = r * c /\ Len(n.pts) = r * c)
        /\ Chk("corner not observed", \A i \in 1..(r * c) : n.seen[i] = 1)
        /\ Chk("numbering", \/ As(LAMBDA i : i)
                            \/ As(LAMBDA i : (r * c - 1) - i)
                            \/ As(LAMBDA i : (y(i) * c) + (c - 1 - x(i)))
                            \/ As(LAMBDA i : ((r - 1 - y(i)) * c) + x(i))
                            \/ r = c /\ \/ As(LAMBDA i : (x(i) * c) + y(i))
                                         \/ As(LAMBDA i : (x(i) * c) + (c - 1 - y(i)))
                                         \/ As(LAMBDA i : ((c - 1 - x(i)) * c) + y(i))
                                         \/ As(LAMBDA i : ((c - 1 - x(i)) * c) + (c - 1 - y(i))))
  /\ Keep /\ Step
April ==
  /\ Is("april")
  /\ Chk("grid size", Line.size = 4 * Line.rows * Line.cols)
  /\ april' = Line
  /\ fam' = [name |-> "36h11", b |-> Line.border, erb |-> 1]
  /\ UNCHANGED <<part, rep, grid>> /\ Step
View ==
  /\ Is("view")
  /\ LET n == Line   F == Family("36h11")   A == april   T == n.t
         H == [i \in 1..3 |-> V(n.Hm[i])]
         a == RX(A.a)   step == RMul(a, RAdd(R(1), RX(A.gap)))
         To(x, y) == LET z == [i \in 1..3 |-> RDot(H[i], <<x, y, R(1)>>)] IN TLCEval(<<RDiv(z[1], z[3]), RDiv(z[2], z[3])>>)
         \* where the corners of the tag drawn at place k are, from the bottom left
         corner(k, i) == LET X == RMul(R(k % n.c), step)   Y == RMul(R(k \div n.c), step) IN
                         To(IF i \in {1, 2} THEN RAdd(X, a) ELSE X, IF i >= 2 THEN RAdd(Y, a) ELSE Y)
         mb == RX(A.minBorder)
         slack == RQ(3, 4)
         \* how far inside the border
         inside(p, s) == /\ RLe(RAdd(mb, s), p[1]) /\ RLe(p[1], RSub(R(n.W), RAdd(mb, s)))
                         /\ RLe(RAdd(mb, s), p[2]) /\ RLe(p[2], RSub(R(n.H), RAdd(mb, s)))
         N == A.rows * A.cols
     IN
     \E C \in {Force([k \in 1..Len(T) |-> [i \in 0..3 |-> corner(T[k].at, i)]])} :
     \E ds \in {TLCEval([k \in 1..Len(T) |-> Distances(Turns(Short(T[k].w, Digits(F)), F.dim), F.codes)])} :
     LET best(k) == Nearest(ds[k])
         idr(k) == CHOOSE q \in (1..4) \X (1..Len(F.codes)) : ds[k][q[1]][q[2]] = best(k)
     IN
     \E who \in {TLCEval([k \in 1..Len(T) |-> IF best(k) > 1 THEN <<0, -1>> ELSE LET q == idr(k) IN <<q[1] - 1, q[2] - 1>>])} :
     LET mine == {k \in 1..Len(T) : who[k][2] >= 0 /\ who[k][2] < N}
         sure == {k \in mine : \A i \in 0..3 : inside(C[k][i], slack)}
         maybe == {k \in mine : \A i \in 0..3 : inside(C[k][i], RNeg(slack))}
     IN
     /\ Chk("view found", Cardinality(sure) >= A.minTags => n.ok)
     /\ Chk("view refused", Cardinality(maybe) < A.minTags => ~n.ok)
     /\ n.ok =>
        LET pt(k, i) == TagPoints(who[k][2], A.cols)[i + 1] + 1
            where(k, i) == C[k][(i + who[k][1]) % 4]
            of(p) == {q \in maybe \X (0..3) : pt(q[1], q[2]) = p} IN
        /\ Chk("points", Len(n.seen) = A.size /\ Len(n.pts) = A.size)
        /\ Chk("corner not observed", \A k \in sure : \A i \in 0..3 : n.seen[pt(k, i)] = 1)
        /\ Chk("corner observed", \A p \in 1..A.size : n.seen[p] = 1 => of(p) # {})
        /\ Chk("corner misplaced", \A p \in 1..A.size : n.seen[p] = 1 =>
                 \E q \in of(p) : Close2(V(n.pts[p]), where(q[1], q[2]), RQ(1, 2)))
  /\ Keep /\ Step

Next == Begin \/ Table \/ Bits \/ Frac \/ Dec \/ Rotate \/ Hamming \/ Uf \/ Joined \/ Rep \/ Size \/ Snap
        \/ Grid \/ GridAdd \/ GridFind \/ Meet \/ Coord \/ Fit \/ Mod \/ Homo \/ Gray \/ Gauss \/ Filter \/ Norm
        \/ Scene \/ Board \/ April \/ View
=============================================================================

----------------------------- MODULE SparseTrace -----------------------------
(***************************************************************************)
(* What the sparse driver saw against SparseBlock (registers of block      *)
(* matrices) and a model of the compressed column matrix: its main part    *)
(* and the diagonal that may be appended to it.                            *)
(***************************************************************************)
EXTENDS SparseBlock, LinAlg, Trc

VARIABLES ms, cm

\* ---------------------------------------------------- reading observations
BlSet(o) == {<<o.bl[k][1] + 1, o.bl[k][2] + 1>> : k \in 1..Len(o.bl)}
Proj(o) == [rb |-> o.rb, cb |-> o.cb,
            bl |-> [p \in BlSet(o) |-> LET k == CHOOSE q \in 1..Len(o.bl) : o.bl[q][1] + 1 = p[1] /\ o.bl[q][2] + 1 = p[2]
                                       IN  o.bl[k][3]]]
SameM(o, m) == /\ o.rb = m.rb /\ o.cb = m.cb
               /\ Len(o.bl) = Cardinality(BlSet(o)) /\ BlSet(o) = DOMAIN m.bl
               /\ \A k \in 1..Len(o.bl) : o.bl[k][3] = m.bl[<<o.bl[k][1] + 1, o.bl[k][2] + 1>>]
\* every register holds what the model says: results and untouched operands alike
SameAll(o, m) == DOMAIN o = DOMAIN m /\ \A d \in DOMAIN m : SameM(o[d], m[d])
Put(d, m) == [x \in DOMAIN ms \cup {d} |-> IF x = d THEN m ELSE ms[x]]
Del(d) == [x \in DOMAIN ms \ {d} |-> ms[x]]
Now(m) == ms' = m /\ UNCHANGED cm /\ ChkV("registers", SameAll(Line.st, m), Line.st)
Same == Now(ms)

\* ---------------------------------------------------------- block matrices
TNew == Is("new") /\ Now(Put(Line.d, New(Line.rb, Line.cb)))
TSet == /\ Is("set")
        /\ LET m == ms[Line.d] IN
           /\ Chk("block exists after allocation", ~Line.null)
           /\ Chk("a new block is zero, an old one keeps its value", Line.before = Blk(m, Line.r + 1, Line.c + 1))
           /\ Now(Put(Line.d, SetBlock(m, Line.r + 1, Line.c + 1, Line.v)))
TGet == /\ Is("getblock")
        /\ LET m == ms[Line.d]
               ok == Line.r \in 0..Len(m.rb) - 1 /\ Line.c \in 0..Len(m.cb) - 1
           IN  /\ Chk("refused exactly out of range", Line.exc = ~ok)
               /\ ok => /\ Chk("allocated", Line.null = ~Has2(m, Line.r + 1, Line.c + 1) /\ Line.set = ~Line.null)
                        /\ ~Line.null => Chk("value", Line.v = m.bl[<<Line.r + 1, Line.c + 1>>])
        /\ Same
TEntries == /\ Is("entries")
            /\ LET m == ms[Line.d] IN
               /\ Chk("entries", Line.e = Dense(m))
               /\ Chk("dense", Line.dense = Dense(m))
               /\ Chk("size", Line.rows = Rows(m) /\ Line.cols = Cols(m) /\ Line.brows = Len(m.rb) /\ Line.bcols = Len(m.cb))
               /\ Chk("counts", Line.nz = NonZeros(m) /\ Line.nzb = NBlocks(m))
               /\ Chk("out of range refused", Line.out1 /\ Line.out2)
            /\ Same
TClear == Is("clear") /\ Now(Put(Line.d, IF Line.dealloc THEN DropBlocks(ms[Line.d]) ELSE ZeroBlocks(ms[Line.d])))
TCopy == Is("copy") /\ Now(Put(Line.d, ms[Line.s]))
TMove == Is("move") /\ Now([x \in (DOMAIN ms \ {Line.s}) \cup {Line.d} |-> IF x = Line.d THEN ms[Line.s] ELSE ms[x]])
TDrop == Is("drop") /\ Now(Del(Line.d))
TSlice == /\ Is("slice")
          /\ LET s == Slice(ms[Line.s], Line.rmin, Line.rmax, Line.cmin, Line.cmax) IN
             IF Line.how = 2   \* into a matrix of that layout: its blocks are kept, zeroed
             THEN Now(Put(Line.d, LET d == ZeroBlocks(ms[Line.d]) IN
                    [d EXCEPT !.bl = [p \in DOMAIN d.bl \cup DOMAIN s.bl |-> IF p \in DOMAIN s.bl THEN s.bl[p] ELSE d.bl[p]]]))
             ELSE Now(Put(Line.d, s))
\* the destination is new or cleared
TTranspose == /\ Is("transpose")
              /\ LET t == Transpose(ms[Line.s]) IN
                 IF Line.fresh \/ SameLayout(ms[Line.d], t)
                 THEN Chk("accepted", Line.ok) /\ Now(Put(Line.d, IF Line.fresh THEN t ELSE AddTo(ZeroBlocks(ms[Line.d]), t)))
                 ELSE Chk("mismatch refused", ~Line.ok) /\ Same
TTransposed == Is("transposed") /\ Chk("transposed", SameM(Line.m, Transpose(ms[Line.s]))) /\ Same
TAdd == /\ Is("add")
        /\ IF Line.fresh THEN Chk("accepted", Line.ok) /\ Now(Put(Line.d, ms[Line.s]))
           ELSE IF SameLayout(ms[Line.d], ms[Line.s])
           THEN Chk("accepted", Line.ok) /\ Now(Put(Line.d, AddTo(ms[Line.d], ms[Line.s])))
           ELSE Chk("mismatch refused", ~Line.ok) /\ Same
TMul == /\ Is("mul")
        /\ IF ~CanMul(ms[Line.a], ms[Line.b]) THEN Chk("mismatch refused", ~Line.ok) /\ Same
           ELSE LET p == Product(ms[Line.a], ms[Line.b]) IN
                Chk("accepted", Line.ok) /\ Now(Put(Line.d, IF Line.fresh THEN p ELSE AddTo(ms[Line.d], p)))
TTimes == /\ Is("times")
          /\ IF CanMul(ms[Line.a], ms[Line.b])
             THEN Chk("accepted", ~Line.exc) /\ Chk("product", SameM(Line.m, Product(ms[Line.a], ms[Line.b])))
             ELSE Chk("mismatch refused", Line.exc)
          /\ Same
TScale == Is("scale") /\ Now(Put(Line.d, Scale(ms[Line.d], Line.f)))
TMulVec == /\ Is("mulvec")
           /\ LET m == ms[Line.s]
                  d == Dense(m)
                  y == DVec(d, Line.x, Rows(m), Cols(m))
                  z == DVec(DTrans(d, Rows(m), Cols(m)), Line.w, Cols(m), Rows(m))
              IN  /\ Chk("M x", Line.y = y /\ Line.yd = y)
                  /\ Chk("M' w", Line.z = z /\ Line.zd = z)
           /\ Same
TPerm == /\ Is("perm")
         /\ LET q == Permuted(ms[Line.s], [k \in 1..Len(Line.pinv) |-> Line.pinv[k] + 1], Line.upper) IN
            IF Line.fresh \/ SameLayout(ms[Line.d], q)
            THEN Chk("accepted", Line.ok) /\ Now(Put(Line.d, IF Line.fresh THEN q ELSE AddTo(ZeroBlocks(ms[Line.d]), q)))
            ELSE Chk("mismatch refused", ~Line.ok) /\ Same
TCcs == /\ Is("ccs")
        /\ LET z == Ccs(ms[Line.s], Line.mode, Cols(ms[Line.s])) IN
           /\ Chk("count", Line.nz = Len(z.e) /\ Line.nz2 = Len(z.e))
           /\ Chk("column pointers", Line.p = z.p)
           /\ Chk("row indices", Line.i = [k \in 1..Len(z.e) |-> z.e[k][1] - 1])
           /\ Chk("values", Line.x = [k \in 1..Len(z.e) |-> z.e[k][2]] /\ Line.y = Line.x)
        /\ Same
TStructure == /\ Is("structure")
              /\ LET m == ms[Line.s]
                     z == Structure(m, Len(m.cb))
                 IN  Chk("structure", Line.n = Len(m.cb) /\ Line.m = Len(m.rb) /\ Line.ap = z.p /\ Line.ai = z.i)
              /\ Same
TFixed == /\ Is("fixed2")
          /\ LET a == Proj(Line.a)
                 d == Dense(a)
             IN  /\ Chk("transpose", SameM(Line.t, Transpose(a)))
                 /\ Chk("product", SameM(Line.ata, Product(Transpose(a), a)))
                 /\ Chk("slice", SameM(Line.sl, Slice(a, 0, Len(a.rb), 0, 1)))
                 /\ Chk("sum", SameM(Line.sum, AddTo(a, a)))
                 /\ Chk("count", Line.nz = NonZeros(a))
                 /\ Chk("M x", Line.y = DVec(d, Line.x, Rows(a), Cols(a)))
                 /\ Chk("M' w", Line.z = DVec(DTrans(d, Rows(a), Cols(a)), Line.w, Cols(a), Rows(a)))
          /\ UNCHANGED <<ms, cm>>

\* ------------------------------------- solving from the upper triangle
Sym(m) == LET d == Dense(m) IN
          Force([i \in 1..Rows(m) |-> [j \in 1..Rows(m) |-> R(IF i <= j THEN d[i][j] ELSE d[j][i])]])
\* |A x - b| small against |A||x| + |b|
SolvesIt(A, x, b) == LET r == VSub(MV(A, x), b)
                         s == RAdd(RMul(RMul(R(Len(b)), MMax(A)), VMax(x)), VMax(b))
                     IN  RLe(VMax(r), RMul(Eps(36), s))
TSolve == /\ Is("solve")
          /\ LET m == ms[Line.s]
                 A == Sym(m)
                 b == Force([i \in 1..Len(Line.b) |-> R(Line.b[i])])
             IN  /\ Chk("solved", Line.ok)
                 /\ \A t \in 1..Len(Line.xs) :
                      /\ Chk("finite", AllFinite(Line.xs[t]))
                      /\ Chk("A x = b", SolvesIt(A, Vec(Line.xs[t]), b))
          /\ Same
\* S = A^-1 on the wanted blocks: checked by A S_c = e_c for full columns, so
\* the wanted pattern always contains full block columns or the diagonal
TCov == /\ Is("cov")
        /\ LET m == ms[Line.s]
               A == Sym(m)
               n == Rows(m)
               nb == Len(m.rb)
               full == \A i, j \in 1..nb : \E k \in 1..Len(Line.want) : Line.want[k][1] + 1 = i /\ Line.want[k][2] + 1 = j
               blk(i, j) == Mat(Line.want[CHOOSE k \in 1..Len(Line.want) : Line.want[k][1] + 1 = i /\ Line.want[k][2] + 1 = j][3])
               S == Force([r \in 1..n |-> [c \in 1..n |->
                       LET i == BlockAt(m.rb, r)  j == BlockAt(m.rb, c) IN blk(i, j)[r - Base(m.rb, i)][c - Base(m.rb, j)]]])
               P == MM(A, S)
           IN  /\ Chk("covariance available", Line.ok /\ Line.ok2)
               /\ Chk("wanted everything", full)
               /\ Chk("A S = I", \A r, c \in 1..n : Near(P[r][c], IF r = c THEN R(1) ELSE R(0), RMul(MMax(A), MMax(S)), 36))
               /\ Chk("diagonal blocks", \A i \in 1..nb : MNear(Mat(Line.blocks[i]), blk(i, i), MMax(S), 36))
        /\ Same

\* ------------------------------------------------ compressed column matrix
CDense(c) == [r \in 1..c.rows |-> c.a[r] \o (IF c.hd THEN [k \in 1..c.rows |-> IF k = r THEN c.diag[k] ELSE 0] ELSE <<>>)]
CCols(c) == c.cols + (IF c.hd THEN c.rows ELSE 0)
\* the observation o is the matrix c, in a well-formed compressed column form
CSame(o, c) ==
  /\ Chk("size", o.rows = c.rows /\ o.cols = CCols(c))
  /\ ChkV("contents", o.dense = CDense(c), CDense(c))
  /\ Chk("element access", o.agree)
  /\ Chk("column pointers", Len(o.ptr) = CCols(c) + 1 /\ o.ptr[1] = 0 /\ o.ptr[Len(o.ptr)] = o.nnz /\ Len(o.ind) = o.nnz)
  /\ Chk("sorted columns", \A k \in 1..CCols(c) : o.ptr[k] <= o.ptr[k + 1]
              /\ \A i \in (o.ptr[k] + 1)..(o.ptr[k + 1] - 1) : o.ind[i] < o.ind[i + 1])
CPut(d, c) == cm' = [x \in DOMAIN cm \cup {d} |-> IF x = d THEN c ELSE cm[x]] /\ UNCHANGED ms
CNew(r, c) == [rows |-> r, cols |-> c, a |-> Zeros(r, c), hd |-> FALSE, diag |-> <<>>]
CIs(d, c) == CPut(d, c) /\ CSame(Line.m, c)
TCNew == Is("cnew") /\ CIs(Line.d, CNew(Line.r, Line.c))
TCClear == Is("cclear") /\ CIs(Line.d, LET c == cm[Line.d] IN CNew(c.rows, CCols(c)))
AbsI(x) == IF x < 0 THEN -x ELSE x
TCDense == Is("cdense") /\ CIs(Line.d,
             [rows |-> Line.rows, cols |-> Line.cols, hd |-> FALSE, diag |-> <<>>,
              a |-> [r \in 1..Line.rows |-> [k \in 1..Line.cols |->
                       IF AbsI(Line.v[r][k]) > (IF Line.tol < 0 THEN 0 ELSE Line.tol) THEN Line.v[r][k] ELSE 0]]])
\* a column of J' per row of J: the active variables at their column bases
JCol(c, k) == [r \in 1..c.rows |->
                 LET S == {q \in 1..Len(Line.js) : Line.js[q].act /\ r > Line.js[q].base /\ r <= Line.js[q].base + Len(Line.js[q].J[k])}
                 IN  IF S = {} THEN 0 ELSE LET q == CHOOSE x \in S : TRUE IN Line.js[q].J[k][r - Line.js[q].base]]
TCJac == /\ Is("cjac")
         /\ LET c == cm[Line.d]
                none == \A q \in 1..Len(Line.js) : ~Line.js[q].act
            IN  IF c.hd \/ none THEN Chk("refused", Line.exc) /\ CIs(Line.d, c)
                ELSE /\ Chk("accepted", ~Line.exc)
                     /\ CIs(Line.d, [c EXCEPT !.cols = @ + Line.rows,
                              !.a = [r \in 1..c.rows |-> c.a[r] \o [k \in 1..Line.rows |-> JCol(c, k)[r]]]])
TCDiag == /\ Is("cdiag")
          /\ LET c == cm[Line.d]
                 vec == Line.how \in {"push", "update"}
                 v == IF vec THEN Line.v ELSE IF Line.how = "pop" THEN <<>> ELSE [k \in 1..c.rows |-> Line.c]
                 push == Line.how \in {"push", "pushc"}
                 ok == IF push THEN ~c.hd /\ Len(v) = c.rows ELSE c.hd
             IN  /\ Chk("refused exactly when illegal", Line.exc = ~ok)
                 /\ CIs(Line.d, IF ~ok THEN c
                                ELSE IF Line.how = "pop" THEN [c EXCEPT !.hd = FALSE, !.diag = <<>>]
                                ELSE [c EXCEPT !.hd = TRUE, !.diag = v])
\* multiplication is with the main part
TCMul == /\ Is("cmul")
         /\ LET c == cm[Line.d] IN
            /\ Chk("A x", Line.y = DVec(c.a, Line.x, c.rows, c.cols))
            /\ Chk("A' w", Line.z = DVec(DTrans(c.a, c.rows, c.cols), Line.w, c.cols, c.rows))
            /\ CIs(Line.d, c)
TCView == /\ Is("cview")
          /\ LET c == cm[Line.d]
                 e == [rows |-> c.rows, cols |-> CCols(c), a |-> CDense(c), hd |-> FALSE, diag |-> <<>>]
             IN  CSame(Line.m, c) /\ CSame(Line.m2, e) /\ CPut(Line.e, e)

TBegin == Is("begin") /\ ms' = <<>> /\ cm' = <<>>
TraceInit == l = 1 /\ ms = <<>> /\ cm = <<>>
TraceNext == Step /\ (TBegin \/ TNew \/ TSet \/ TGet \/ TEntries \/ TClear \/ TCopy \/ TMove \/ TDrop \/ TSlice \/ TTranspose
                \/ TTransposed \/ TAdd \/ TMul \/ TTimes \/ TScale \/ TMulVec \/ TPerm \/ TCcs \/ TStructure \/ TFixed
                \/ TSolve \/ TCov \/ TCNew \/ TCClear \/ TCDense \/ TCJac \/ TCDiag \/ TCMul \/ TCView)
=============================================================================

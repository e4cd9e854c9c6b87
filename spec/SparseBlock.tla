----------------------------- MODULE SparseBlock -----------------------------
(***************************************************************************)
(* Block matrices.  A matrix is a partition of its rows and columns into   *)
(* blocks (the end index of every block, as the code keeps it) and the     *)
(* blocks that are allocated:                                              *)
(*   [rb : Seq(Nat), cb : Seq(Nat), bl : (subset of 1..Len(rb) \X          *)
(*    1..Len(cb)) -> matrix of that block's size]                          *)
(* Dense(m) is what m means; every operation below is stated on blocks and *)
(* SparseBlockMC checks that each refines its dense counterpart.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Base(b, i) == IF i = 1 THEN 0 ELSE b[i - 1]
Size(b, i) == b[i] - Base(b, i)
Total(b) == IF b = <<>> THEN 0 ELSE b[Len(b)]
Rows(m) == Total(m.rb)
Cols(m) == Total(m.cb)
Zeros(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
BlockAt(b, k) == CHOOSE i \in 1..Len(b) : Base(b, i) < k /\ k <= b[i]

Has2(m, i, j) == <<i, j>> \in DOMAIN m.bl
Blk(m, i, j) == IF Has2(m, i, j) THEN m.bl[<<i, j>>] ELSE Zeros(Size(m.rb, i), Size(m.cb, j))
At(m, r, c) == LET i == BlockAt(m.rb, r)
                   j == BlockAt(m.cb, c)
               IN  IF Has2(m, i, j) THEN m.bl[<<i, j>>][r - Base(m.rb, i)][c - Base(m.cb, j)] ELSE 0
Dense(m) == [r \in 1..Rows(m) |-> [c \in 1..Cols(m) |-> At(m, r, c)]]

\* ------------------------------------------------------- dense operations
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
DTrans(a, r, c) == [j \in 1..c |-> [i \in 1..r |-> a[i][j]]]      \* a is r x c
DAdd(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> a[i][j] + b[i][j]]]
DMul(a, b, r, k, c) == [i \in 1..r |-> [j \in 1..c |-> SumTo([x \in 1..k |-> a[i][x] * b[x][j]], k)]]
DScale(a, f) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> f * a[i][j]]]
DVec(a, x, r, c) == [i \in 1..r |-> SumTo([j \in 1..c |-> a[i][j] * x[j]], c)]

\* ------------------------------------------------------- block operations
New(rb, cb) == [rb |-> rb, cb |-> cb, bl |-> <<>>]
NBlocks(m) == Cardinality(DOMAIN m.bl)
RECURSIVE Scalars(_, _)
Scalars(m, S) == IF S = {} THEN 0
                 ELSE LET p == CHOOSE q \in S : TRUE IN Size(m.rb, p[1]) * Size(m.cb, p[2]) + Scalars(m, S \ {p})
NonZeros(m) == Scalars(m, DOMAIN m.bl)
SetBlock(m, i, j, v) == [m EXCEPT !.bl = [p \in DOMAIN m.bl \cup {<<i, j>>} |-> IF p = <<i, j>> THEN v ELSE m.bl[p]]]
ZeroBlocks(m) == [m EXCEPT !.bl = [p \in DOMAIN m.bl |-> Zeros(Size(m.rb, p[1]), Size(m.cb, p[2]))]]
DropBlocks(m) == [m EXCEPT !.bl = <<>>]
SubEnds(b, lo, hi) == [k \in 1..(hi - lo) |-> b[lo + k] - Base(b, lo + 1)]
\* block rows lo+1 .. hi (the code's half-open ranges, from 0)
Slice(m, rlo, rhi, clo, chi) ==
  [rb |-> SubEnds(m.rb, rlo, rhi), cb |-> SubEnds(m.cb, clo, chi),
   bl |-> [p \in {q \in (1..(rhi - rlo)) \X (1..(chi - clo)) : Has2(m, q[1] + rlo, q[2] + clo)} |->
             m.bl[<<p[1] + rlo, p[2] + clo>>]]]
Flip(S) == {<<p[2], p[1]>> : p \in S}
Transpose(m) ==
  [rb |-> m.cb, cb |-> m.rb,
   bl |-> [p \in Flip(DOMAIN m.bl) |-> DTrans(m.bl[<<p[2], p[1]>>], Size(m.rb, p[2]), Size(m.cb, p[1]))]]
SameLayout(a, b) == a.rb = b.rb /\ a.cb = b.cb
\* d := d + s, for equal layouts
AddTo(d, s) ==
  [d EXCEPT !.bl = [p \in DOMAIN d.bl \cup DOMAIN s.bl |-> DAdd(Blk(d, p[1], p[2]), Blk(s, p[1], p[2]))]]
CanMul(a, b) == a.cb = b.rb
\* the blocks of a * b that get a contribution, and their sum added to d
MulPattern(a, b) == {p \in (1..Len(a.rb)) \X (1..Len(b.cb)) :
                       \E k \in 1..Len(a.cb) : Has2(a, p[1], k) /\ Has2(b, k, p[2])}
RECURSIVE MulSum(_, _, _, _, _)
MulSum(a, b, i, j, k) ==
  IF k = 0 THEN Zeros(Size(a.rb, i), Size(b.cb, j))
  ELSE IF Has2(a, i, k) /\ Has2(b, k, j)
       THEN DAdd(MulSum(a, b, i, j, k - 1),
                 DMul(a.bl[<<i, k>>], b.bl[<<k, j>>], Size(a.rb, i), Size(a.cb, k), Size(b.cb, j)))
       ELSE MulSum(a, b, i, j, k - 1)
Product(a, b) == [rb |-> a.rb, cb |-> b.cb,
                  bl |-> [p \in MulPattern(a, b) |-> MulSum(a, b, p[1], p[2], Len(a.cb))]]
Scale(m, f) == [m EXCEPT !.bl = [p \in DOMAIN m.bl |-> DScale(m.bl[p], f)]]

\* old block i becomes block pinv[i] (from 1)
RECURSIVE Ends(_, _)
Ends(sizes, n) == IF n = 0 THEN 0 ELSE Ends(sizes, n - 1) + sizes[n]
PermEnds(b, pinv) ==
  LET n == Len(b)
      inv == [k \in 1..n |-> CHOOSE i \in 1..n : pinv[i] = k]
      sizes == [k \in 1..n |-> Size(b, inv[k])]
  IN  [k \in 1..n |-> Ends(sizes, k)]
\* with upper, what lands below the diagonal is stored transposed above it
PermTarget(p, pinv, upper) ==
  LET q == <<pinv[p[1]], pinv[p[2]]>> IN IF upper /\ q[1] > q[2] THEN <<q[2], q[1]>> ELSE q
Permuted(m, pinv, upper) ==
  LET e == PermEnds(m.rb, pinv) IN
  [rb |-> e, cb |-> e,
   bl |-> [t \in {PermTarget(p, pinv, upper) : p \in DOMAIN m.bl} |->
             LET p == CHOOSE q \in DOMAIN m.bl : PermTarget(q, pinv, upper) = t
             IN  IF upper /\ pinv[p[1]] > pinv[p[2]]
                 THEN DTrans(m.bl[p], Size(m.rb, p[1]), Size(m.cb, p[2])) ELSE m.bl[p]]]

\* ------------------------------------------------- compressed column export
\* whether the scalar (r, c) is stored; mode 0: every allocated block, 1: diagonal
\* blocks down to the diagonal only, 2: mirrored from the upper triangle
Stored(m, r, c, mode) ==
  LET i == BlockAt(m.rb, r)
      j == BlockAt(m.cb, c)
  IN  CASE mode = 0 -> Has2(m, i, j)
        [] mode = 1 -> Has2(m, i, j) /\ (Base(m.rb, i) = Base(m.cb, j) => r <= c)
        [] mode = 2 -> IF r <= c THEN Has2(m, i, j) ELSE Has2(m, BlockAt(m.rb, c), BlockAt(m.cb, r))
Value(m, r, c, mode) == IF mode = 2 /\ r > c THEN At(m, c, r) ELSE At(m, r, c)
ColEntries(m, c, mode) ==
  LET S == {r \in 1..Rows(m) : Stored(m, r, c, mode)}
      RECURSIVE Up(_, _)
      Up(T, k) == IF T = {} THEN <<>>
                  ELSE LET r == CHOOSE x \in T : \A y \in T : x <= y
                       IN  <<<<r, Value(m, r, c, mode)>>>> \o Up(T \ {r}, k)
  IN  Up(S, 0)
RECURSIVE Ccs(_, _, _)
Ccs(m, mode, c) == IF c = 0 THEN [p |-> <<0>>, e |-> <<>>]
                   ELSE LET z == Ccs(m, mode, c - 1)
                            e == z.e \o ColEntries(m, c, mode)
                        IN  [p |-> Append(z.p, Len(e)), e |-> e]
UpperOnly(m) == \A p \in DOMAIN m.bl : p[1] <= p[2]

\* the block structure: allocated blocks of the upper triangle, per block column
RECURSIVE Structure(_, _)
Structure(m, c) ==
  IF c = 0 THEN [p |-> <<0>>, i |-> <<>>]
  ELSE LET z == Structure(m, c - 1)
           S == {r \in 1..Len(m.rb) : r <= c /\ Has2(m, r, c)}
           RECURSIVE Up(_)
           Up(T) == IF T = {} THEN <<>> ELSE LET r == CHOOSE x \in T : \A y \in T : x <= y IN <<r - 1>> \o Up(T \ {r})
           i == z.i \o Up(S)
       IN  [p |-> Append(z.p, Len(i)), i |-> i]
=============================================================================

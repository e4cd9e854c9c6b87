---------------------------- MODULE SparseBlockMC ----------------------------
(***************************************************************************)
(* Every operation of SparseBlock refines the dense operation, for every   *)
(* pair of matrices over the layouts below and every allocation pattern.   *)
(* The entries are pairwise different numbers, so an entry in the wrong    *)
(* place is always seen.                                                   *)
(***************************************************************************)
EXTENDS SparseBlock

CONSTANT Layouts
DefaultLayouts == { <<1>>, <<2>>, <<1, 3>>, <<2, 3>> }
DeepLayouts == { <<1>>, <<2>>, <<1, 3>>, <<2, 3>>, <<1, 2, 4>> }

VARIABLES a, b
Val(k, p, r, c) == k + 1000 * p[1] + 100 * p[2] + 10 * r + c
Mats(rb, cb, k) ==
  {[rb |-> rb, cb |-> cb,
    bl |-> [p \in S |-> [r \in 1..Size(rb, p[1]) |-> [c \in 1..Size(cb, p[2]) |-> Val(k, p, r, c)]]]] :
     S \in SUBSET ((1..Len(rb)) \X (1..Len(cb)))}
\* canonical form of a finished value: TLC compares sequences with functions on 1..n
Init == /\ \E rb, cb \in Layouts : a \in Mats(rb, cb, 0)
        /\ b = a
Next == b = a /\ UNCHANGED a /\ \E rb, cb \in Layouts : (rb = a.cb \/ (rb = a.rb /\ cb = a.cb)) /\ b' \in Mats(rb, cb, 5)

DA == Dense(a)
DB == Dense(b)
TransposeRefines == /\ Dense(Transpose(a)) = DTrans(DA, Rows(a), Cols(a))
                    /\ Transpose(Transpose(a)) = a
ScaleRefines == Dense(Scale(a, 3)) = DScale(DA, 3)
ClearRefines == Dense(ZeroBlocks(a)) = Zeros(Rows(a), Cols(a)) /\ Dense(DropBlocks(a)) = Zeros(Rows(a), Cols(a))
SliceRefines ==
  \A rlo \in 0..Len(a.rb) - 1, rhi \in 1..Len(a.rb), clo \in 0..Len(a.cb) - 1, chi \in 1..Len(a.cb) :
    rlo < rhi /\ clo < chi =>
      LET s == Slice(a, rlo, rhi, clo, chi)
          ro == Base(a.rb, rlo + 1)
          co == Base(a.cb, clo + 1)
      IN  Dense(s) = [r \in 1..(a.rb[rhi] - ro) |-> [c \in 1..(a.cb[chi] - co) |-> DA[r + ro][c + co]]]
AddRefines == SameLayout(a, b) => /\ Dense(AddTo(a, b)) = DAdd(DA, DB)
                                  /\ NBlocks(AddTo(a, b)) = Cardinality(DOMAIN a.bl \cup DOMAIN b.bl)
MulRefines == CanMul(a, b) => Dense(Product(a, b)) = DMul(DA, DB, Rows(a), Cols(a), Cols(b))
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
PermRefines ==
  a.rb = a.cb => \A f \in Perms(Len(a.rb)) :
    LET q == Permuted(a, f, FALSE)
        \* scalar permutation that follows from the block permutation
        g == [r \in 1..Rows(a) |-> LET i == BlockAt(a.rb, r) IN Base(q.rb, f[i]) + r - Base(a.rb, i)]
    IN  /\ \A r, c \in 1..Rows(a) : At(q, g[r], g[c]) = At(a, r, c)
        /\ UpperOnly(a) => LET u == Permuted(a, f, TRUE) IN
              UpperOnly(u) /\ \A r, c \in 1..Rows(a) :
                BlockAt(a.rb, r) < BlockAt(a.rb, c) => At(u, g[r], g[c]) + At(u, g[c], g[r]) = At(a, r, c)
CcsRefines ==
  /\ LET z == Ccs(a, 0, Cols(a)) IN
       /\ Len(z.e) = NonZeros(a)
       /\ \A c \in 1..Cols(a), r \in 1..Rows(a) :
            At(a, r, c) = LET S == {k \in (z.p[c] + 1)..z.p[c + 1] : z.e[k][1] = r}
                          IN  IF S = {} THEN 0 ELSE z.e[CHOOSE k \in S : TRUE][2]
  /\ (a.rb = a.cb /\ UpperOnly(a)) =>
       LET z == Ccs(a, 2, Cols(a)) IN \A c, r \in 1..Cols(a) :
         At(a, IF r <= c THEN r ELSE c, IF r <= c THEN c ELSE r) =
           LET S == {k \in (z.p[c] + 1)..z.p[c + 1] : z.e[k][1] = r}
           IN  IF S = {} THEN 0 ELSE z.e[CHOOSE k \in S : TRUE][2]
\* for a = b only (the operations on one matrix)
Unary == b = a => TransposeRefines /\ ScaleRefines /\ ClearRefines /\ SliceRefines /\ PermRefines /\ CcsRefines
Binary == AddRefines /\ MulRefines
=============================================================================

-------------------------------- MODULE Tags --------------------------------
(***************************************************************************)
(* Fiducial tags.  A word is a sequence of digits in base 64, least      *)
(* significant first; the bits of a d x d tag are its d*d low bits, the    *)
(* most significant of them the top left cell, row by row.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TagCodes

\* ------------------------------------------------------------------ words
Two == TLCEval([k \in 0..6 |-> 2 ^ k])
\* in how many of six bits two digits differ
RECURSIVE Differ(_, _, _)
Differ(x, y, k) == IF k = 0 THEN 0 ELSE (IF x % 2 = y % 2 THEN 0 ELSE 1) + Differ(x \div 2, y \div 2, k - 1)
DigitDist == TLCEval([x \in 0..63 |-> TLCEval([y \in 0..63 |-> Differ(x, y, 6)])])

\* words of as many digits
RECURSIVE DistTo(_, _, _)
DistTo(a, b, k) == IF k = 0 THEN 0 ELSE DigitDist[a[k]][b[k]] + DistTo(a, b, k - 1)
Dist(a, b) == DistTo(a, b, Len(b))
Weight(a) == DistTo(a, [k \in 1..Len(a) |-> 0], Len(a))
Bit(w, k) == (w[(k \div 6) + 1] \div Two[k % 6]) % 2
\* the cell in row r (from the top) and column c of a d x d tag
Cell(w, d, r, c) == Bit(w, (d * d) - 1 - (r * d + c))
RECURSIVE SumUp(_, _, _)
SumUp(f, i, j) == IF i > j THEN 0 ELSE f[i] + SumUp(f, i + 1, j)
\* the word whose cell in row r, column c is f(r, c), in n digits
WordOf(d, n, f(_, _)) ==
  [k \in 1..n |-> SumUp([j \in 0..5 |-> LET i == 6 * (k - 1) + j   p == (d * d) - 1 - i IN
                                          IF i >= d * d THEN 0 ELSE Two[j] * f(p \div d, p % d)], 0, 5)]
\* the picture turned clockwise by a quarter
Turn(w, d) == TLCEval(WordOf(d, Len(w), LAMBDA r, c : Cell(w, d, d - 1 - c, r)))
Turns(w, d) == LET a == Turn(w, d)   b == Turn(a, d) IN TLCEval(<<w, a, b, Turn(b, d)>>)
Fits(w, d) == \A k \in 1..Len(w) : w[k] < 64 /\ \A j \in 0..5 : 6 * (k - 1) + j >= d * d => (w[k] \div Two[j]) % 2 = 0

\* ----------------------------------------------------------------- decode
\* all <<quarter turns, identity>> nearest to a word given in its four positions
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Distances(ws, codes) == TLCEval([t \in 1..4 |-> [i \in 1..Len(codes) |-> Dist(ws[t], codes[i])]])
Nearest(ds) == MinOf({ds[t][i] : t \in 1..4, i \in 1..Len(ds[1])})

\* ------------------------------------------------------------- April grid
\* the points of tag id in a grid of cols tags: bottom left, bottom right, top right, top left
TagPoints(id, cols) ==
  LET base == ((id \div cols) * (4 * cols)) + ((id % cols) * 2) IN
  <<base, base + 1, base + 2 * cols + 1, base + 2 * cols>>

\* -------------------------------------------------------------- partition
Classes(n) == [i \in 0..(n - 1) |-> {i}]
Join(p, a, b) == [i \in DOMAIN p |-> IF i \in p[a] \cup p[b] THEN p[a] \cup p[b] ELSE p[i]]
=============================================================================

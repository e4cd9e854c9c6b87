------------------------------- MODULE TagsMC -------------------------------
(***************************************************************************)
(* The published tables keep the distance they promise between any two     *)
(* identities in any position, so that decoding with at most (min-1)/2     *)
(* wrong bits names one identity; turning is a rotation of the picture and *)
(* keeps distances; and a grid's tags share its points out among them.     *)
(***************************************************************************)
EXTENDS Tags
CONSTANTS Families, MaxRows, MaxCols

VARIABLES what, id, blk
vars == <<what, id, blk>>

\* one word after the other, in blocks of ten
Init == \/ \E n \in Families : what = n /\ id = 0 /\ blk \in 0..((Len(Family(n).codes) - 1) \div 10)
        \/ what = "grid" /\ id \in (1..MaxRows) \X (1..MaxCols) /\ blk = 0
        \/ what = "turn" /\ id \in {<<d, w>> : d \in 2..4, w \in {0, 1, 2, 5, 11, 14, 511, 1234, 4094}} /\ blk = 0
Next == /\ what \in Families /\ UNCHANGED <<what, blk>>
        /\ LET k == IF id = 0 THEN 10 * blk + 1 ELSE id + 1 IN k <= 10 * blk + 10 /\ k <= Len(Family(what).codes) /\ id' = k
Spec == Init /\ [][Next]_vars

Word == IF what \in Families THEN id # 0 ELSE FALSE
Apart ==
  Word =>
    LET F == Family(what) IN
    \E w \in {Turns(F.codes[id], F.dim)} :
      \A j \in (id + 1)..Len(F.codes) : \A t \in 1..4 : Dist(w[t], F.codes[j]) >= F.min
Whole == Word => LET F == Family(what) IN F.dim * F.dim = F.bits /\ Fits(F.codes[id], F.dim)
Correctable ==   \* any pattern of few wrong bits on a few words still decodes to the word
  (IF Word THEN id % 97 = 1 ELSE FALSE) =>
    LET F == Family(what)   w == F.codes[id] IN
    \A k \in 0..(F.bits - 1) :
      \E v \in {[i \in 1..Len(w) |-> IF i # (k \div 6) + 1 THEN w[i] ELSE IF (w[i] \div Two[k % 6]) % 2 = 0 THEN w[i] + Two[k % 6] ELSE w[i] - Two[k % 6]]} :
        \E ds \in {Distances(Turns(v, F.dim), F.codes)} :
          /\ Nearest(ds) = 1
          /\ \A t \in 1..4, i \in 1..Len(F.codes) : ds[t][i] = 1 => i = id

Shared ==
  what = "grid" =>
    LET rows == id[1]   cols == id[2]
        n == rows * cols
        \* point p lies in row p \div (2 cols), column p % (2 cols) of the points
        row(p) == p \div (2 * cols)   col(p) == p % (2 * cols) IN
    /\ UNION {{TagPoints(k, cols)[j] : j \in 1..4} : k \in 0..(n - 1)} = 0..(4 * n - 1)
    /\ \A k \in 0..(n - 1) : \A j \in 1..4 :
         LET p == TagPoints(k, cols)[j] IN
         /\ row(p) \div 2 = k \div cols /\ col(p) \div 2 = k % cols
         /\ row(p) % 2 = (IF j >= 3 THEN 1 ELSE 0) /\ col(p) % 2 = (IF j \in {2, 3} THEN 1 ELSE 0)

Turned ==
  what = "turn" =>
    LET d == id[1]   w == IF d = 2 THEN <<id[2] % 16>> ELSE <<id[2] % 64, (id[2] \div 64) % (IF d = 3 THEN 8 ELSE 64), IF d = 4 THEN 9 ELSE 0>>
        ws == Turns(w, d) IN
    /\ Turn(ws[4], d) = w
    /\ \A t \in 1..4 : Weight(ws[t]) = Weight(w) /\ Fits(ws[t], d)
    /\ Cell(ws[2], d, 0, d - 1) = Cell(w, d, 0, 0)   \* top left goes to top right
    /\ Cell(ws[3], d, d - 1, d - 1) = Cell(w, d, 0, 0)
=============================================================================

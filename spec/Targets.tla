------------------------------ MODULE Targets ------------------------------
(***************************************************************************)
(* Calibration targets and observations of them.  An observation is a      *)
(* partial function from target point indices to image points, with the    *)
(* image's size, a time stamp and, once estimated, a pose.  Everything     *)
(* read from it is defined on that function.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a fresh observation of a target; im: <<rows, columns, pixel>>, pixel -1: no image
NewObs(tg, im) == [tg |-> tg, pt |-> << >>, im |-> im, size |-> IF im[3] = -1 THEN <<0, 0>> ELSE <<im[1], im[2]>>,
                   t |-> <<"0", "0">>, posed |-> FALSE, T |-> << >>]
\* functions with finite domains as sets of pairs would be as good; here they are TLA+ functions
PutPt(o, i, x) == [o EXCEPT !.pt = [k \in DOMAIN o.pt \cup {i} |-> IF k = i THEN x ELSE o.pt[k]]]
DropPt(o, i) == [o EXCEPT !.pt = [k \in DOMAIN o.pt \ {i} |-> o.pt[k]]]
Retarget(o, tg) == [o EXCEPT !.tg = tg, !.pt = << >>, !.posed = FALSE]
SetImage(o, im) == [o EXCEPT !.im = im, !.size = <<im[1], im[2]>>]
ClearImage(o) == [o EXCEPT !.im = <<0, 0, -1>>]
SetPose(o, T) == [o EXCEPT !.posed = TRUE, !.T = T]

\* the indices observed, in order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Seen(o) == Sorted(DOMAIN o.pt)

\* the grid: index <-> row and column
RowOf(i, cols) == i \div cols
ColOf(i, cols) == i % cols
IndexOf(r, c, cols) == r * cols + c
=============================================================================

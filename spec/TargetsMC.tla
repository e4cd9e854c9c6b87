----------------------------- MODULE TargetsMC -----------------------------
(***************************************************************************)
(* Design of target observations: two observations, copied and re-targeted *)
(* at will, next to the history of what was done to each.  What an         *)
(* observation holds is the last word of its own history on every index.   *)
(***************************************************************************)
EXTENDS Targets, Integers, TLC

CONSTANTS N, Values, Depth, MaxRows, MaxCols

VARIABLES a, b, ha, hb
vars == <<a, b, ha, hb>>
Img == <<0, 0, -1>>
Init == a = NewObs(1, Img) /\ b = NewObs(1, Img) /\ ha = << >> /\ hb = << >>
Ev(e) == ha' = Append(ha, e) /\ UNCHANGED <<b, hb>>
Update == \E i \in 0..(N - 1), v \in Values : a' = PutPt(a, i, v) /\ Ev(<<"put", i, v>>)
Remove == \E i \in 0..(N - 1) : a' = DropPt(a, i) /\ Ev(<<"drop", i, 0>>)
Target == \E t \in 1..2 : a' = Retarget(a, t) /\ Ev(<<"target", t, 0>>)
Pose == \E T \in Values : a' = SetPose(a, <<T>>) /\ Ev(<<"pose", T, 0>>)
\* a detection: new target, the points found, then perhaps a pose and the removal of outliers
Find == \E t \in 1..2, S \in SUBSET (0..(N - 1)), out \in SUBSET (0..(N - 1)), T \in Values \cup {-1} :
          /\ out \subseteq S /\ (T = -1 => out = {})
          /\ a' = LET o == [Retarget(a, t) EXCEPT !.pt = [i \in S \ out |-> i]] IN IF T = -1 THEN o ELSE SetPose(o, <<T>>)
          /\ Ev(<<"find", t, [S |-> S \ out, T |-> T]>>)
Copy == \/ a' = b /\ ha' = hb /\ UNCHANGED <<b, hb>>
        \/ b' = a /\ hb' = ha /\ UNCHANGED <<a, ha>>
Next == (Len(ha) < Depth /\ (Update \/ Remove \/ Target \/ Pose \/ Find)) \/ Copy
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ meaning of a history
Resets(h) == {k \in 1..Len(h) : h[k][1] \in {"target", "find"}}
Start(h) == IF Resets(h) = {} THEN 0 ELSE CHOOSE k \in Resets(h) : \A j \in Resets(h) : j <= k
TargetOf(h) == IF Start(h) = 0 THEN 1 ELSE h[Start(h)][2]
About(h, i) == {k \in 1..Len(h) : k >= Start(h) /\ ((h[k][1] \in {"put", "drop"} /\ h[k][2] = i) \/ h[k][1] = "find")}
LastOf(S) == CHOOSE k \in S : \A j \in S : j <= k
Held(h, i) == IF About(h, i) = {} THEN << >>
              ELSE LET e == h[LastOf(About(h, i))] IN
                   IF e[1] = "put" THEN <<e[3]>> ELSE IF e[1] = "find" /\ i \in e[3].S THEN <<i>> ELSE << >>
Poses(h) == {k \in 1..Len(h) : k >= Start(h) /\ (h[k][1] = "pose" \/ (h[k][1] = "find" /\ h[k][3].T # -1))}
PoseOf(h) == LET e == h[LastOf(Poses(h))] IN IF e[1] = "pose" THEN e[2] ELSE e[3].T

Means(o, h) ==
  /\ o.tg = TargetOf(h)
  /\ \A i \in 0..(N - 1) : (i \in DOMAIN o.pt) <=> (Held(h, i) # << >>)
  /\ \A i \in DOMAIN o.pt : <<o.pt[i]>> = Held(h, i)
  /\ o.posed <=> Poses(h) # {}
  /\ o.posed => o.T = <<PoseOf(h)>>
Meaning == Means(a, ha) /\ Means(b, hb)
\* image and target corner lists go together
Paired == \A o \in {a, b} : /\ Len(Seen(o)) = Cardinality(DOMAIN o.pt)
                            /\ \A k \in 1..Len(Seen(o)) : Seen(o)[k] \in DOMAIN o.pt
                            /\ \A k \in 1..(Len(Seen(o)) - 1) : Seen(o)[k] < Seen(o)[k + 1]
\* index and grid coordinates name the same point
ASSUME \A rows \in 1..MaxRows, cols \in 1..MaxCols :
         /\ \A i \in 0..(rows * cols - 1) : RowOf(i, cols) < rows /\ ColOf(i, cols) < cols /\ IndexOf(RowOf(i, cols), ColOf(i, cols), cols) = i
         /\ \A r \in 0..(rows - 1), c \in 0..(cols - 1) : RowOf(IndexOf(r, c, cols), cols) = r /\ ColOf(IndexOf(r, c, cols), cols) = c
=============================================================================

------------------------------- MODULE ViewsMC -------------------------------
(* Every order in which a few observations can be added to the table. *)
EXTENDS Views, TLC
CONSTANTS Cams, TMax, Tol, Depth, Corners
VARIABLES views, all, refused
vars == <<views, all, refused>>
Init == views = <<>> /\ all = {} /\ refused = {}
Add(c, t, k) ==
  LET n == Cardinality(all) + 1
      o == [n |-> n, corners |-> k]
  IN \E r \in Added(views, Tol, c, t, o) :
       /\ views' = r.views
       /\ all' = all \cup {[cam |-> c, t |-> t, n |-> n]}
       /\ refused' = IF r.err THEN refused \cup {n} ELSE refused
Next == Cardinality(all) < Depth /\ \E c \in Cams, t \in 0..TMax, k \in Corners : Add(c, t, k)
Spec == Init /\ [][Next]_vars

In(o) == {i \in 1..Len(views) : o.cam \in DOMAIN views[i].by /\ views[i].by[o.cam].n = o.n}
OneView == \A o \in all : Cardinality(In(o)) = (IF o.n \in refused THEN 0 ELSE 1)
Synchronised == \A o \in all : \A i \in In(o) : Abs(views[i].t - o.t) <= Tol
Apart == \A i, j \in 1..Len(views) : i # j => Abs(views[i].t - views[j].t) > Tol
\* a camera whose observations are far enough apart loses none
Spaced == \A p, q \in all : (p # q /\ p.cam = q.cam) => Abs(p.t - q.t) > 2 * Tol
NoneLost == Spaced => refused = {}
\* instants that lie apart are found whatever the order
Clear == \A p, q \in all : Abs(p.t - q.t) <= Tol \/ Abs(p.t - q.t) > 2 * Tol
Grouped == (Clear /\ \A p, q, r \in all : (Abs(p.t - q.t) <= Tol /\ Abs(q.t - r.t) <= Tol) => Abs(p.t - r.t) <= Tol) =>
   \A p, q \in all : (p.n \notin refused /\ q.n \notin refused) => ((In(p) = In(q)) <=> Abs(p.t - q.t) <= Tol)
Symmetric == \A a, b \in Cams : Weight(views, a, b) = Weight(views, b, a)
Mutual == \A a, b \in Cams : Weight(views, a, b) > 0 <=> \E i \in 1..Len(views) : Common(views[i], a, b) # {}
=============================================================================

------------------------------ MODULE ViewsTrace ------------------------------
(* Recorded use of ObservationDatabase and MulticamCalibrationGraph. *)
EXTENDS Trc, Views, SequencesExt
VARIABLES views, obs, tol
vars == <<l, views, obs, tol>>
Init == l = 1 /\ views = <<>> /\ obs = <<>> /\ tol = 0
Range0(s) == {s[i] : i \in 1..Len(s)}

Begin == Is("begin") /\ views' = <<>> /\ obs' = <<>> /\ tol' = 0 /\ Step
Db == Is("db") /\ views' = <<>> /\ obs' = <<>> /\ tol' = Line.tol /\ Step
Add == Is("add") /\ \E r \in Added(views, tol, Line.cam, Line.t, [n |-> Line.n, corners |-> Range0(Line.corners)]) :
  /\ Chk("a second view of a camera at an instant is reported, and only that", r.err = Line.err)
  /\ views' = r.views
  /\ obs' = Append(obs, [cam |-> Line.cam, t |-> Line.t, n |-> Line.n])
  /\ UNCHANGED tol
  /\ Step

View(v) == [t |-> v.t, by |-> [c \in {x.cam : x \in Range0(v.cams)} |-> LET x == CHOOSE y \in Range0(v.cams) : y.cam = c IN [n |-> x.n, corners |-> Range0(x.corners)]]]
Of(c, v) == IF c \in DOMAIN v.by THEN v.by[c].n ELSE 0
Filter(s, x) == SelectSeq(s, LAMBDA y : y # x)
See == Is("views") /\
  LET n == Line.cams
      seen == {o.cam : o \in Range0(obs)}
  IN /\ Chk("views", {View(v) : v \in Range0(Line.views)} = Range0(views) /\ Len(Line.views) = Len(views))
     /\ Chk("the time of a view is the time of an observation", \A v \in Range0(Line.views) : v.exact)
     /\ Chk("observations of a view", \A v \in Range0(Line.views) : {<<x[1], x[2]>> : x \in Range0(v.all)} = {<<x.cam, x.n>> : x \in Range0(v.cams)} /\ Len(v.all) = Len(v.cams))
     /\ Chk("number of cameras", n = Cardinality(seen))
     /\ Chk("observations of a camera", \A c \in 0..(n - 1) :
          LET e == Line.each[c + 1] IN Range0(e) = {Of(c, v) : v \in Range0(views)} \ {0} /\ Len(e) = Cardinality(Range0(e)))
     /\ Chk("observations of two cameras", \A p \in Range0(Line.two) :
          /\ {<<x[1], x[2]>> : x \in Range0(p.obs)} = {<<Of(p.a, v), Of(p.b, v)>> : v \in Range0(views)} \ {<<0, 0>>}
          /\ Len(p.obs) = Cardinality({x[1] : x \in Range0(p.obs)} \ {0}) + Cardinality({x[2] : x \in {y \in Range0(p.obs) : y[1] = 0}}))
     /\ UNCHANGED <<views, obs, tol>>
     /\ Step

Edges(n) == {<<a, b>> \in (0..(n - 1)) \X (0..(n - 1)) : a < b /\ Weight(views, a, b) > 0}
Graph == Is("graph") /\
  LET n == Line.n IN
  /\ Chk("camera pairs that see the same corners", {<<e.a, e.b>> : e \in Range0(Line.edges)} = Edges(n) /\ Len(Line.edges) = Cardinality(Edges(n)))
  /\ Chk("number of common corners", \A e \in Range0(Line.edges) : e.w = Weight(views, e.a, e.b))
  /\ Chk("connected", n >= 2 => (Line.connected = Connected(views, n)))
  /\ Chk("overlaps", \A c \in 0..(n - 1) : LET o == Line.overlaps[c + 1] IN
       Range0(o) = {b \in 0..(n - 1) : b # c /\ Weight(views, c, b) > 0} /\ Len(o) = Cardinality(Range0(o)))
  /\ Chk("mutual observations", \A m \in Range0(Line.mutual) :
       /\ Len(m.x) = Len(m.y)
       /\ {<<m.x[i], m.y[i]>> : i \in 1..Len(m.x)} = {<<v.by[m.a].n, v.by[m.b].n>> : v \in {w \in Range0(views) : Common(w, m.a, m.b) # {}}}
       /\ Len(m.x) = Cardinality(Range0(m.x)))
  /\ UNCHANGED <<views, obs, tol>>
  /\ Step

(* whole-number rigid transformations, eight times their entries *)
Mul(A, B) == [i \in 1..4 |-> [j \in 1..4 |-> (A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j] + A[i][4] * B[4][j]) \div 8]]
Guess == Is("guess") /\
  LET n == Len(Line.poses) IN
  /\ IF Connected(views, n)
     THEN /\ Chk("cameras that are connected have baselines", Line.how = "")
          /\ Chk("a baseline for each camera and the next", Len(Line.base) = n - 1)
          /\ Chk("baselines", \A i \in 1..(n - 1) : Line.base[i] # <<>> /\ Mul(Line.base[i], Line.poses[i]) = Line.poses[i + 1])
          /\ Chk("pairs without common corners are not calibrated", \A p \in Range0(Line.pairs) : p.a < p.b /\ Weight(views, p.a, p.b) > 0)
          /\ Chk("observations a pair is calibrated with", \A p \in Range0(Line.pairs) :
               {<<x[1], x[2]>> : x \in Range0(p.obs)} = {<<Of(p.a, v), Of(p.b, v)>> : v \in Range0(views)} \ {<<0, 0>>})
     ELSE Chk("cameras that are not connected are refused", Line.how = "exit" /\ Line.base = <<>>)
  /\ UNCHANGED <<views, obs, tol>>
  /\ Step

Pose == Is("pose") /\ \E v \in {w \in Range0(views) : w.t = Line.t} :
  /\ Chk("the camera that sees most finds the target", Len(Line.asked) = 1 /\ \E c \in DOMAIN v.by :
       v.by[c].n = Line.asked[1] /\ \A d \in DOMAIN v.by : Cardinality(v.by[d].corners) <= Cardinality(v.by[c].corners))
  \* T_t_c0 * T_c0_w = T_t_w whoever found it
  /\ Chk("pose", Line.pose # <<>> /\ Mul(Line.pose, Line.poses[1]) = Line.target)
  /\ UNCHANGED <<views, obs, tol>>
  /\ Step

Next == Begin \/ Db \/ Add \/ See \/ Graph \/ Guess \/ Pose
=============================================================================

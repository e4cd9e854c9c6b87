---------------------------- MODULE JacobianTrace ----------------------------
(***************************************************************************)
(* Histories of the real Jacobian containers.  All values are integers or  *)
(* halves of moderate size, so the doubles must be exactly right.          *)
(***************************************************************************)
EXTENDS LinAlg, Trc, FiniteSets

VARIABLES vs, cs
vars == <<l, vs, cs>>
\* vs[i] = [n, active, bi, s];  cs[name] = [rows, J: variable -> matrix]
SameM(obs, m) == Len(obs) = Len(m) /\ AllFiniteM(obs) /\
                 \A i \in 1..Len(m) : Len(obs[i]) = Len(m[i]) /\ \A j \in 1..Len(m[i]) : REq(RX(obs[i][j]), m[i][j])
SameV(obs, v) == Len(obs) = Len(v) /\ AllFinite(obs) /\ \A i \in 1..Len(v) : REq(RX(obs[i]), v[i])

TVar == Is("var") /\ vs' = Append(vs, [n |-> Line.n, active |-> Line.active, bi |-> Line.bi, s |-> RX(Line.s)]) /\ UNCHANGED cs
TAct == Is("act") /\ vs' = [vs EXCEPT ![Line.v + 1].active = Line.active] /\ UNCHANGED cs
Put(c, x) == cs' = (c :> x) @@ cs
TNew == Is("new") /\ Put(Line.c, [rows |-> Line.rows, J |-> <<>>]) /\ UNCHANGED vs
TCopy == Is("copy") /\ Put(Line.b, cs[Line.a]) /\ UNCHANGED vs
With(f, v, M) == IF v \in DOMAIN f THEN [f EXCEPT ![v] = MAdd(@, M)] ELSE (v :> M) @@ f
TAdd == /\ Is("add")
        /\ LET c == cs[Line.c]
               v == Line.v + 1
               bad == Line.r # c.rows \/ Line.k # vs[v].n
           IN  /\ Chk("a Jacobian of the wrong size is refused", Line.exc = bad)
               /\ IF bad \/ ~vs[v].active THEN UNCHANGED cs
                  ELSE Put(Line.c, [c EXCEPT !.J = With(c.J, v, Mat(Line.M))])
        /\ UNCHANGED vs
TMerge == /\ Is("merge")
          /\ LET c == cs[Line.c]
                 d == cs[Line.d]
                 both == DOMAIN c.J \cup DOMAIN d.J
                 bad == c.rows # d.rows
             IN  /\ Chk("containers of different heights are not added", Line.exc = bad)
                 /\ IF bad THEN UNCHANGED cs
                    ELSE Put(Line.c, [c EXCEPT !.J = [v \in both |-> IF v \notin DOMAIN c.J THEN d.J[v]
                                                                   ELSE IF v \notin DOMAIN d.J THEN c.J[v] ELSE MAdd(c.J[v], d.J[v])]])
          /\ UNCHANGED vs
TChain == /\ Is("chain")
          /\ LET c == cs[Line.c]
                 bad == Line.k # c.rows
             IN  /\ Chk("a factor of the wrong size is refused", Line.exc = bad)
                 /\ IF bad THEN UNCHANGED cs
                    ELSE Put(Line.c, [rows |-> Line.r, J |-> [v \in DOMAIN c.J |-> MM(Mat(Line.M), c.J[v])]])
          /\ UNCHANGED vs
TClear == Is("clear") /\ Put(Line.c, [cs[Line.c] EXCEPT !.J = <<>>]) /\ UNCHANGED vs
TReset == Is("reset") /\ Put(Line.c, [rows |-> Line.rows, J |-> <<>>]) /\ UNCHANGED vs

\* the variables of a container, by block index
RECURSIVE ByIndex(_)
ByIndex(S) == IF S = {} THEN <<>>
              ELSE LET v == CHOOSE v \in S : \A u \in S : vs[v].bi <= vs[u].bi IN <<v>> \o ByIndex(S \ {v})
Side(c, o) == LET RECURSIVE F(_)
                  F(i) == IF i = 0 THEN [r \in 1..c.rows |-> <<>>] ELSE HCat(F(i - 1), c.J[o[i]])
              IN  Force(F(Len(o)))
\* over all blocks: zero where there is none
Wide(c, bl) == LET at(b) == {v \in DOMAIN c.J : vs[v].bi = b - 1}
                   w(b) == bl[b] - (IF b = 1 THEN 0 ELSE bl[b - 1])
                   RECURSIVE F(_)
                   F(b) == IF b = 0 THEN [r \in 1..c.rows |-> <<>>]
                           ELSE HCat(F(b - 1), IF at(b) = {} THEN MZero(c.rows, w(b)) ELSE c.J[CHOOSE v \in at(b) : TRUE])
               IN  Force(F(Len(bl)))
TView == /\ Is("view")
         /\ LET c == cs[Line.c]
                o == ByIndex(DOMAIN c.J)
                n == Len(o)
                ids == [i \in 1..n |-> o[i] - 1]
            IN  /\ Chk("rows", Line.rows = c.rows)
                /\ Chk("the design variables, by block index", Line.n = n /\ Line.ids = ids /\ Line.it = ids /\ Line.over)
                /\ Chk("columns", Line.cols = (LET RECURSIVE S(_)
                                                   S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + vs[o[i]].n IN S(n)))
                /\ Chk("the Jacobian of each variable", \A v \in 1..Len(vs) :
                         IF v \in DOMAIN c.J THEN SameM(Line.J[v], c.J[v]) ELSE Line.J[v] = "none")
                /\ Chk("the dense matrix", n > 0 => SameM(Line.D, Side(c, o)) /\ Line.S = Line.D)
                /\ Chk("the matrix over all blocks", SameM(Line.DB, Wide(c, Line.bl)) /\ Line.SB = Line.DB)
         /\ UNCHANGED <<vs, cs>>
\* every column scaled by its variable's scaling
Cols(bl) == bl[Len(bl)]
ScaledWide(c, bl) == Wide([c EXCEPT !.J = [v \in DOMAIN c.J |-> MScale(vs[v].s, c.J[v])]], bl)
THess == /\ Is("hess")
         /\ LET c == cs[Line.c]
                J == ScaledWide(c, Line.bl)
                S == Mat(Line.S)
                W == MScale(R(Line.t), MM(S, MT(S)))
                H == MM(MT(J), MM(W, J))
                rhs == VNeg(MTV(J, MV(W, Vec(Line.e))))
                blk(i) == CHOOSE b \in 1..Len(Line.bl) : i <= Line.bl[b] /\ (b = 1 \/ i > Line.bl[b - 1])
            IN  /\ Chk("no error", ~Line.exc)
                /\ Chk("right-hand side", SameV(Line.rhs, rhs))
                /\ Chk("Hessian: the upper block triangle", AllFiniteM(Line.H) /\ \A i \in 1..Len(H) : \A j \in 1..Len(H) :
                         blk(i) <= blk(j) => REq(RX(Line.H[i][j]), H[i][j]))
                /\ Chk("Hessian: below it nothing else", \A i \in 1..Len(H) : \A j \in 1..Len(H) :
                         blk(i) > blk(j) => RSign(RX(Line.H[i][j])) = 0 \/ REq(RX(Line.H[i][j]), H[i][j]))
         /\ UNCHANGED <<vs, cs>>

Init == l = 1 /\ vs = <<>> /\ cs = <<>>
TBegin == Is("begin") /\ vs' = <<>> /\ cs' = <<>>
Next == Step /\ (TBegin \/ TVar \/ TAct \/ TNew \/ TCopy \/ TAdd \/ TMerge \/ TChain \/ TClear \/ TReset \/ TView \/ THess)
=============================================================================

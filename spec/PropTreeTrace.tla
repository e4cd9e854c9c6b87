-------------------------- MODULE PropTreeTrace --------------------------
(***************************************************************************)
(* Property trees of the code against PropTree.tla.  Values carry the type *)
(* they were set with; reading as another type reads the text.             *)
(***************************************************************************)
EXTENDS PropTree, Exact, FiniteSets, Trc

VARIABLES trees, nodes, files
vars == <<l, trees, nodes, files>>
Init == l = 1 /\ trees = << >> /\ nodes = << >> /\ files = << >>
Begin == Is("begin") /\ trees' = << >> /\ nodes' = << >> /\ files' = << >> /\ Step
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* ------------------------------------------------------ reading texts
Space == {32, 9, 10, 11, 12, 13}
RECURSIVE Strip(_)
Strip(s) == IF s # << >> /\ s[1] \in Space THEN Strip(Tail(s))
            ELSE IF s # << >> /\ s[Len(s)] \in Space THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Run(_, _)
Run(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN Run(s, i + 1) ELSE i       \* first place from i that is no digit
RECURSIVE Nat10(_, _, _)
Nat10(s, i, j) == IF j < i THEN R(0) ELSE RAdd(RMul(R(10), Nat10(s, i, j - 1)), R(s[j] - 48))
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN R(1) ELSE IF n < 0 THEN RDiv(Ten(n + 1), R(10)) ELSE RMul(Ten(n - 1), R(10))
Signed(s) == s # << >> /\ s[1] \in {43, 45}
Sign(s, v) == IF s # << >> /\ s[1] = 45 THEN RNeg(v) ELSE v
\* << >> or <<value>>
IntOf(t) == LET s == Strip(t)
                a == IF Signed(s) THEN 2 ELSE 1
                e == Run(s, a) IN
            IF e = a \/ e # Len(s) + 1 THEN << >>
            ELSE LET v == Sign(s, Nat10(s, a, e - 1)) IN
                 IF RLe(RAbs(v), RPow2(31)) /\ ~REq(v, RPow2(31)) THEN <<v>> ELSE << >>
DecOf(t) == LET s == Strip(t)
                a == IF Signed(s) THEN 2 ELSE 1
                e == Run(s, a)                                             \* after the whole digits
                dot == e <= Len(s) /\ s[e] = 46
                f == IF dot THEN Run(s, e + 1) ELSE e                      \* after the fraction
                nf == IF dot THEN f - e - 1 ELSE 0
                ex == f <= Len(s) /\ s[f] \in {69, 101}
                g == IF ex THEN (IF f + 1 <= Len(s) /\ s[f + 1] \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
                z == IF ex THEN Run(s, g) ELSE f
            IN IF (e - a) + nf = 0 \/ z # Len(s) + 1 \/ (ex /\ z = g) THEN << >>
               ELSE LET m == RAdd(Nat10(s, a, e - 1), IF nf > 0 THEN RMul(Nat10(s, e + 1, f - 1), Ten(-nf)) ELSE R(0))
                        x == IF ex THEN RToInt(Nat10(s, g, z - 1)) * (IF s[g - 1] = 45 THEN -1 ELSE 1) ELSE 0
                    IN <<Sign(s, RMul(m, Ten(x)))>>
Word(t, w) == Strip(t) = w
TRUETEXT == <<116, 114, 117, 101>>
FALSETEXT == <<102, 97, 108, 115, 101>>
BoolOf(t) == LET i == IntOf(t) IN
  IF Word(t, TRUETEXT) THEN <<TRUE>> ELSE IF Word(t, FALSETEXT) THEN <<FALSE>>
  ELSE IF i # << >> /\ REq(i[1], R(1)) THEN <<TRUE>> ELSE IF i # << >> /\ REq(i[1], R(0)) THEN <<FALSE>> ELSE << >>
\* the double y is nearest to the number v
IsNearest(y, v) == RLe(RAbs(RSub(RX(y), v)), RAdd(RMul(RPow2(-53), RAbs(v)), RPow2(-1074)))

\* ---------------------------------------- values and how they are read
Finite(v) == v.k # "d" \/ RIsFinite(v.x)
\* does the text t stand for the value v?
Stands(v, t) ==
  CASE v.k = "s" -> t = v.x
    [] v.k = "i" -> LET n == IntOf(t) IN n # << >> /\ REq(n[1], R(v.x))
    [] v.k = "b" -> BoolOf(t) = <<v.x>>
    [] v.k = "d" -> IF RIsFinite(v.x) THEN LET n == DecOf(t) IN n # << >> /\ IsNearest(v.x, n[1]) ELSE TRUE
As(t, x) == CASE t = "i" -> IntOf(x) [] t = "d" -> DecOf(x) [] t = "b" -> BoolOf(x)
Equals(t, y, v) == CASE t = "i" -> REq(v, R(y)) [] t = "d" -> IsNearest(y, v) [] t = "b" -> y = v
\* y is what reading v as type t gives; ex: the exception, "" for none
Read(v, t, y, ex) ==
  IF ex # "" THEN
    /\ ex = "value"
    /\ t # "s"
    /\ CASE v.k = t -> FALSE
         [] v.k = "s" -> LET x == As(t, v.x) IN x = << >>
         [] v.k = "i" -> t = "b" /\ v.x \notin {0, 1}
         [] OTHER -> TRUE                             \* a double as an integer, a truth value as a number
  ELSE
    CASE v.k = t -> y = v.x
      [] t = "s" -> Stands(v, y)
      [] v.k = "s" -> LET x == As(t, v.x) IN
           /\ x # << >>
           /\ Equals(t, y, x[1])
      [] v.k = "i" /\ t = "d" -> REq(RX(y), R(v.x))
      [] v.k = "i" /\ t = "b" -> v.x \in {0, 1} /\ (y = (v.x = 1))
      [] v.k = "d" /\ t = "i" -> RIsFinite(v.x) /\ REq(RX(v.x), R(y))
      [] v.k = "d" /\ t = "b" -> RIsFinite(v.x) /\ REq(RX(v.x), R(IF y THEN 1 ELSE 0))
      [] v.k = "b" -> REq(IF t = "d" THEN RX(y) ELSE R(y), R(IF v.x THEN 1 ELSE 0))
      [] OTHER -> FALSE

Node == nodes[Line.n]
TreeOf(n) == nodes[n].tree
\* the whole tree as the code has it is T
Shows(T) ==
  LET A == Line.all IN
  /\ Chk("paths", {A[i][1] : i \in 1..Len(A)} = DOMAIN T /\ Len(A) = Cardinality(DOMAIN T))
  /\ Chk("values", \A i \in 1..Len(A) : Stands(T[A[i][1]], A[i][2]))
Now(t, T) == \E X \in {T} : Shows(X) /\ trees' = With(trees, t, X)

Tree == Is("tree") /\ nodes' = With(nodes, Line.n, [tree |-> Line.n, at |-> Names(Line.base)]) /\ Now(Line.n, << >>) /\ UNCHANGED files /\ Step
\* the nodes of the parent are named in the script
Child == Is("child") /\ \E p \in {nodes[Line.p]} :
           nodes' = With(nodes, Line.n, [tree |-> p.tree, at |-> ChildOf(p.at, Line.ns)]) /\ Now(p.tree, trees[p.tree]) /\ UNCHANGED files /\ Step
Copy == Is("copy") /\ \E p \in {nodes[Line.p]} : nodes' = With(nodes, Line.n, p) /\ Now(p.tree, trees[p.tree]) /\ UNCHANGED files /\ Step

Path == PathOf(Node.at, Line.k)
Old == trees[Node.tree]
Keep == Now(Node.tree, Old) /\ UNCHANGED <<nodes, files>> /\ Step
Refused == Chk("malformed key refused", Line.ex = "key") /\ Keep
Set == Is("set") /\ IF ~ValidKey(Line.k) THEN Refused
       ELSE Chk("set", Line.ex = "") /\ Now(Node.tree, Put(Old, Path, [k |-> Line.t, x |-> Line.x])) /\ UNCHANGED <<nodes, files>> /\ Step
Y == IF Has(Line, "y") THEN Line.y ELSE << >>
GetV == Is("get") /\ IF ~ValidKey(Line.k) THEN Refused
        ELSE /\ IF Path \in DOMAIN Old THEN Chk("value", Read(Old[Path], Line.t, Y, Line.ex)) ELSE Chk("absent", Line.ex = "key")
             /\ Keep
GetD == Is("getd") /\ IF ~ValidKey(Line.k) THEN Refused
        ELSE IF Path \in DOMAIN Old /\ (Old[Path] # Empty \/ Line.t = "s")
             THEN Chk("value", Read(Old[Path], Line.t, Y, Line.ex)) /\ Keep
             ELSE /\ Chk("default", Line.ex = "" /\ Y = Line.d)
                  /\ Now(Node.tree, IF Line.const THEN Old ELSE Put(Old, Path, [k |-> Line.t, x |-> Line.d])) /\ UNCHANGED <<nodes, files>> /\ Step
Exist == Is("exist") /\ IF ~ValidKey(Line.k) THEN Refused ELSE Chk("exists", Line.ex = "" /\ Y = Exists(Old, Path)) /\ Keep

\* ------------------------------------------------------------ files
\* what an INI file keeps of a text: one line without the space around it
IniText(t) == Strip(t) = t /\ \A i \in 1..Len(t) : t[i] \notin {10, 13}
IniSafe(T) == \A p \in DOMAIN T : T[p].k = "s" => IniText(T[p].x)
Unknown == "unknown"
Save == Is("save") /\
  \E fits \in {Line.fmt # "ini" \/ IniFits(Old)} :
  /\ IF fits /\ (Line.fmt # "ini" \/ IniSafe(Old)) THEN Chk("saved", Line.ex = "") ELSE TRUE
  /\ ~fits => Chk("refused", Line.ex # "")
  /\ files' = With(files, Line.f, IF Line.ex # "" \/ (Line.fmt = "ini" /\ ~IniSafe(Old)) THEN [fmt |-> Unknown, T |-> << >>] ELSE [fmt |-> Line.fmt, T |-> Old])
  /\ Now(Node.tree, Old) /\ UNCHANGED nodes /\ Step
\* the tree the code shows, as texts
Shown == LET A == Line.all IN [p \in {A[i][1] : i \in 1..Len(A)} |-> [k |-> "s", x |-> A[CHOOSE i \in 1..Len(A) : A[i][1] = p][2]]]
Load == Is("load") /\
  LET F == IF Line.f \in DOMAIN files THEN files[Line.f] ELSE [fmt |-> "none", T |-> << >>] IN
  /\ CASE F.fmt = Line.fmt -> Chk("loaded", Line.ex = "") /\ Now(Node.tree, F.T)
       [] F.fmt \in {"none", "junk"} -> Chk("refused", Line.ex # "") /\ Now(Node.tree, Old)
       [] OTHER -> Now(Node.tree, IF Line.ex = "" THEN Shown ELSE Old)
  /\ UNCHANGED <<nodes, files>> /\ Step
Junk == Is("junk") /\ files' = With(files, Line.n, [fmt |-> "junk", T |-> << >>]) /\ UNCHANGED <<trees, nodes>> /\ Step

Next == Begin \/ Tree \/ Child \/ Copy \/ Set \/ GetV \/ GetD \/ Exist \/ Save \/ Load \/ Junk
===========================================================================

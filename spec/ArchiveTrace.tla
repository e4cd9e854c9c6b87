--------------------------- MODULE ArchiveTrace ---------------------------
(***************************************************************************)
(* Matrix archives of the code against Archive.tla.                        *)
(***************************************************************************)
EXTENDS Archive, FiniteSets, TLC, Trc

VARIABLES st, files
vars == <<l, st, files>>
Init == l = 1 /\ st = << >> /\ files = << >>
Begin == Is("begin") /\ st' = << >> /\ files' = << >> /\ Step
Of(a) == IF a \in DOMAIN st THEN st[a] ELSE << >>
Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
ValidName(k) == /\ Len(k) \in 1..32 /\ Alpha(k[1])
                /\ \A i \in 2..Len(k) : Alpha(k[i]) \/ (k[i] >= 48 /\ k[i] <= 57) \/ k[i] = 95
M(x) == [t |-> "m", x |-> x]
\* (the same shape as a matrix, so that entries of different kinds can be compared)
Text(x) == [r |-> -1, c |-> -1, x |-> [i \in 1..Len(x) |-> ToString(x[i])]]
S(x) == [t |-> "s", x |-> Text(x)]
\* what the code shows of the store
Seen == LET a == Line.ms   b == Line.ss IN
  [n \in {a[i][1] : i \in 1..Len(a)} \cup {b[i][1] : i \in 1..Len(b)} |->
     IF \E i \in 1..Len(a) : a[i][1] = n THEN M(a[CHOOSE i \in 1..Len(a) : a[i][1] = n][2]) ELSE S(b[CHOOSE i \in 1..Len(b) : b[i][1] = n][2])]
Count(E, t) == Cardinality({n \in DOMAIN E : E[n].t = t})
Counts(E) == /\ Chk("number of matrices", Line.nm = Count(E, "m") /\ Len(Line.ms) = Line.nm)
             /\ Chk("number of strings", Line.ns = Count(E, "s") /\ Len(Line.ss) = Line.ns)
             /\ Chk("number of entries", Line.n = Cardinality(DOMAIN E))
Now(E) == \E X \in {E} : Counts(X) /\ Chk("entries", Seen = X) /\ st' = SetE(st, Line.a, X) /\ Step
Old == Of(Line.a)
Keep == UNCHANGED files
New == Is("new") /\ Now(<< >>) /\ Keep
Copy == Is("copy") /\ Now(Of(Line.from)) /\ Keep
ClearAll == Is("clearall") /\ Now(<< >>) /\ Keep
Clear == Is("clear") /\ Now(DropE(Old, Line.k)) /\ Keep
Set == Is("set") /\ Keep /\
  LET k == Line.k
      good == /\ ValidName(k)
              /\ Line.how = "vector" => Line.x.c = 1
              /\ (Line.how = "create" /\ Line.over = 0) => ~(k \in DOMAIN Old /\ Old[k].t = "m")
  IN IF good THEN Chk("set", Line.ex = "") /\ Now(SetE(Old, k, IF Line.how = "string" THEN S(Line.x) ELSE M(Line.x)))
     ELSE Chk("refused", Line.ex = "archive") /\ Now(Old)
Get == Is("get") /\ Keep /\
  LET k == Line.k
      there == k \in DOMAIN Old /\ Old[k].t = (IF Line.how = "string" THEN "s" ELSE "m")
      good == there /\ (Line.how = "vector" => Old[k].x.c = 1) /\ (Line.how = "scalar" => Old[k].x.r = 1 /\ Old[k].x.c = 1)
  IN /\ IF Line.how = "find" THEN Chk("found", Line.ex = "" /\ Line.y = there)
        ELSE IF good THEN Chk("value", Line.ex = "" /\ (IF Line.how = "string" THEN Text(Line.y) ELSE Line.y) = Old[k].x)
        ELSE Chk("refused", Line.ex = "archive")
     /\ Now(Old)

\* ------------------------------------------------------------ files
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Writing(_)
Writing(E) == IF DOMAIN E = {} THEN << >> ELSE LET n == CHOOSE n \in DOMAIN E : TRUE IN <<[n |-> n, v |-> E[n]]>> \o Writing(DropE(E, n))
\* the format: kind, name, size(s), contents, end
Bytes(b) == IF b.v.t = "m" THEN 42 + 8 * b.v.x.r * b.v.x.c ELSE 38 + Len(b.v.x.x)
RECURSIVE Total(_)
Total(B) == IF B = << >> THEN 0 ELSE Bytes(B[1]) + Total(Tail(B))
Write(E, N) == Writing([n \in {m \in DOMAIN E : Chosen(m, N)} |-> E[n]])
\* matrices come first, each kind in the order of the names; only sizes depend on it
NoFile == [B |-> << >>, bad |-> FALSE, loose |-> FALSE, there |-> FALSE]
FileOf(f) == IF f \in DOMAIN files THEN files[f] ELSE NoFile
\* loose: the order of the blocks is not known here, only which there are
Save == (Is("save") \/ Is("stream")) /\ Chk("saved", Line.ex = "") /\
  \E B \in {Write(Old, Range(Line.names))} :
    /\ Chk("all written", Line.size >= 0)
    /\ files' = SetE(files, Line.f, [B |-> B, bad |-> FALSE, loose |-> FALSE, there |-> TRUE]) /\ Now(Old)
Append1 == Is("append") /\ Chk("saved", Line.ex = "") /\
  \E B \in {Write(Old, Range(Line.names))} : LET f == FileOf(Line.f) IN
    /\ files' = SetE(files, Line.f, [f EXCEPT !.B = f.B \o B, !.there = TRUE, !.loose = f.loose \/ f.bad]) /\ Now(Old)
Cut == Is("cut") /\
  LET f == FileOf(Line.a) IN
  /\ files' = IF Line.size < 0 \/ Line.at >= Line.size THEN files
              ELSE SetE(files, Line.a, [f EXCEPT !.bad = TRUE, !.loose = f.loose \/ f.bad \/ Line.size # Total(f.B), !.there = TRUE] @@ [at |-> Line.at])
  /\ UNCHANGED st /\ Step
Damage == Is("damage") /\
  LET f == FileOf(Line.a) IN
  /\ files' = IF ~Line.done THEN files ELSE SetE(files, Line.a, [f EXCEPT !.bad = TRUE, !.loose = f.loose \/ f.bad] @@ [field |-> Line.field])
  /\ UNCHANGED st /\ Step
\* can whole blocks make up the first c bytes?
RECURSIVE Fits(_, _)
Fits(B, c) == c = 0 \/ (B # << >> /\ (Fits(Tail(B), c) \/ (Bytes(B[1]) <= c /\ Fits(Tail(B), c - Bytes(B[1])))))
Load == Is("load") /\ Keep /\
  LET f == FileOf(Line.f)   N == Range(Line.names) IN
  IF ~f.there THEN Chk("no file", Line.ex = "archive") /\ Now(Old)
  ELSE IF ~f.bad THEN Chk("loaded", Line.ex = "") /\ Now(Reading(Old, f.B, N))
  ELSE \E X \in {Seen} :
       /\ Counts(X)
       /\ Chk("refused as such", Line.ex \in {"", "archive"})
       /\ Chk("whole entries", Between(X, Old, f.B, N))
       /\ (~f.loose /\ "at" \in DOMAIN f /\ ~Fits(f.B, f.at)) => Chk("truncation refused", Line.ex = "archive")
       /\ (~f.loose /\ "field" \in DOMAIN f /\ (f.field # "name" \/ N = {})) => Chk("damage refused", Line.ex = "archive")
       /\ st' = SetE(st, Line.a, X) /\ Step

Next == Begin \/ New \/ Copy \/ ClearAll \/ Clear \/ Set \/ Get \/ Save \/ Append1 \/ Cut \/ Damage \/ Load
===========================================================================

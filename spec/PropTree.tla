----------------------------- MODULE PropTree -----------------------------
(***************************************************************************)
(* A property tree: a function from paths (sequences of names) to values,  *)
(* closed under prefixes.  A node of it is a path; a key given to a node   *)
(* is absolute or relative to it.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Empty == [k |-> "s", x |-> << >>]            \* what a path holds that only leads to others
Prefixes(p) == {SubSeq(p, 1, n) : n \in 1..Len(p)}
Put(T, p, v) == [q \in DOMAIN T \cup Prefixes(p) |-> IF q = p THEN v ELSE IF q \in DOMAIN T THEN T[q] ELSE Empty]
Get(T, p) == T[p]
Exists(T, p) == p \in DOMAIN T
HasChildren(T, p) == \E q \in DOMAIN T : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p
\* what an INI file can hold: sections of keys
IniFits(T) == \A p \in DOMAIN T : Len(p) <= 2 /\ (HasChildren(T, p) => T[p] = Empty)

\* names and keys are sequences of character codes; 47 is '/'
RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, cur) == IF i > Len(s) THEN <<cur>>
                      ELSE IF s[i] = 47 THEN <<cur>> \o SplitAt(s, i + 1, << >>)
                      ELSE SplitAt(s, i + 1, Append(cur, s[i]))
\* the names on the way: a slash at the front or the end separates nothing
Names(s) == LET a == IF s # << >> /\ s[1] = 47 THEN Tail(s) ELSE s
                b == IF a # << >> /\ a[Len(a)] = 47 THEN SubSeq(a, 1, Len(a) - 1) ELSE a
            IN IF b = << >> THEN << >> ELSE SplitAt(b, 1, << >>)
Absolute(s) == s # << >> /\ s[1] = 47
ChildOf(node, s) == IF Absolute(s) THEN Names(s) ELSE node \o Names(s)
ValidKey(s) == Names(s) # << >>
PathOf(node, s) == ChildOf(node, s)
===========================================================================

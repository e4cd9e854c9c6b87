---------------------------- MODULE SerialTrace ----------------------------
(***************************************************************************)
(* Objects in files.  Every type of object is written by one archive and   *)
(* read by its twin; what is seen of an object (Line.d) is the whole of    *)
(* its state through its own interface.  A file holds a snapshot: what is  *)
(* read is what was written, whatever the object held before, and reading  *)
(* a file that lost its end either fails or finds the whole snapshot.      *)
(***************************************************************************)
EXTENDS Trc, Sequences, FiniteSets, TLC

VARIABLES O, F   \* slot -> [t: type, d: what is seen]; file -> [t, k: format, d, cut, word, size]
vars == <<l, O, F>>

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
None == [x \in {} |-> 0]
Init == l = 1 /\ O = None /\ F = None
Begin == Is("begin") /\ O' = None /\ F' = None /\ Step

Make ==
  /\ Is("make")
  /\ O' = Put(O, Line.s, [t |-> Line.t, d |-> Line.d]) /\ UNCHANGED F /\ Step
Save ==
  /\ Is("save")
  /\ Chk("saved", ~Line.threw)
  /\ Chk("an object is not changed by saving it", Line.d = O[Line.s].d)
  /\ F' = Put(F, Line.f, [t |-> O[Line.s].t, k |-> Line.k, d |-> O[Line.s].d, cut |-> FALSE, word |-> FALSE])
  /\ UNCHANGED O /\ Step
Cut ==
  /\ Is("cut")
  /\ F' = [F EXCEPT ![Line.f] = [@ EXCEPT !.cut = @ \/ Line.at < Line.size, !.word = Line.word]]
  /\ UNCHANGED O /\ Step
\* A file of words that ends inside its last word cannot be told from a whole one.
Load ==
  /\ Is("load")
  /\ LET f == F[Line.f] IN
     /\ IF Line.threw THEN Chk("read", f.cut)
        ELSE Chk(IF f.cut THEN "a damaged file is refused" ELSE "what was written is read", Line.d = f.d \/ (f.cut /\ f.k = "txt" /\ f.word))
     /\ O' = IF Line.threw THEN Drop(O, Line.s) ELSE Put(O, Line.s, [t |-> f.t, d |-> Line.d])
  /\ UNCHANGED F /\ Step

Next == Begin \/ Make \/ Save \/ Cut \/ Load
Spec == Init /\ [][Next]_vars
=============================================================================

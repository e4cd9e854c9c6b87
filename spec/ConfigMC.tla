------------------------------- MODULE ConfigMC -------------------------------
(* A chain of cameras in memory and on disk: setting, refusing, writing and    *)
(* reading back, next to the history of what was set last.                     *)
EXTENDS Integers, FiniteSets
CONSTANTS NCam, Keys, Vals, Bad
VARIABLES mem, file, ghost, onDisk, last
vars == <<mem, file, ghost, onDisk, last>>
Cams == 0..(NCam - 1)
Unset == "unset"
Blank == [c \in Cams |-> [k \in Keys |-> Unset]]
NoFile == [none |-> TRUE]
Init == mem = Blank /\ file = NoFile /\ ghost = {} /\ onDisk = {} /\ last = "start"
Legal(c, k, v) == c \in Cams /\ v \notin Bad /\ ~(k = "baseline" /\ c = 0)
Set(c, k, v) ==
  IF Legal(c, k, v)
  THEN /\ mem' = [mem EXCEPT ![c][k] = v]
       /\ ghost' = {g \in ghost : g[1] # c \/ g[2] # k} \cup {<<c, k, v>>}
       /\ last' = "set"
       /\ UNCHANGED <<file, onDisk>>
  ELSE last' = "refused" /\ UNCHANGED <<mem, file, ghost, onDisk>>
Write == file' = mem /\ onDisk' = ghost /\ last' = "write" /\ UNCHANGED <<mem, ghost>>
Reload == file # NoFile /\ mem' = file /\ ghost' = onDisk /\ last' = "read" /\ UNCHANGED <<file, onDisk>>
Next == (\E c \in 0..NCam, k \in Keys, v \in Vals \cup Bad : Set(c, k, v)) \/ Write \/ Reload
Spec == Init /\ [][Next]_vars
ReadsBack == \A c \in Cams, k \in Keys : IF mem[c][k] = Unset THEN \A v \in Vals : <<c, k, v>> \notin ghost ELSE <<c, k, mem[c][k]>> \in ghost
OncePerKey == \A g, h \in ghost : (g[1] = h[1] /\ g[2] = h[2]) => g = h
FirstHasNoBaseline == mem[0]["baseline"] = Unset
RefusedChangesNothing == [][last' = "refused" => UNCHANGED <<mem, file>>]_vars
OnlyOne == [][last' = "set" => Cardinality({ck \in Cams \X Keys : mem'[ck[1]][ck[2]] # mem[ck[1]][ck[2]]}) <= 1]_vars
===============================================================================

CONSTANTS
  Dvs = {d1, d2}
  Groups = {g1, g2}
  Ets = {e1}
  Names = {a, b, c}
  MaxMerged = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS CountsAreUses Union_ Once GroupsAgree MergeUnmerge SameRemoval

SPECIFICATION Spec
CONSTANTS NCam = 2
 Keys = {"baseline", "shift"}
 Vals = {"a", "b"}
 Bad = {"x"}
INVARIANTS ReadsBack OncePerKey FirstHasNoBaseline
PROPERTIES RefusedChangesNothing OnlyOne
CHECK_DEADLOCK FALSE

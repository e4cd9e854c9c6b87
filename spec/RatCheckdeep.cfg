SPECIFICATION Spec
CONSTANTS
  N = 9
  B = 100
INVARIANTS Field Order Round Sums Texts Roots Expo Logs Waves Arcs
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  P = 3
  MaxLen = 2
  V = {0, 1, 2}
INVARIANTS RoundsBounded SplitsRight Correct

SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  Rounds = 3
  Free = TRUE
INVARIANTS InOrder

SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  Rounds = 3
  Free = FALSE
INVARIANTS InOrder OneForOne
PROPERTY AllServed

SPECIFICATION Spec
CONSTANTS
  Bus = 2
  MaxB = 3
  Bound = 8
  Ks = {1, 2, 4}
  MaxSize = 7
  MaxG = 10
  MaxStride = 2
  Ahead = 2
INVARIANTS Legal Contiguous Refines Inside
PROPERTY Finishes
CHECK_DEADLOCK TRUE

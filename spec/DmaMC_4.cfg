SPECIFICATION Spec
CONSTANTS
  Bus = 4
  MaxB = 3
  Bound = 16
  Ks = {1, 2, 4, 8}
  MaxSize = 12
  MaxG = 20
  MaxStride = 2
  Ahead = 2
INVARIANTS Legal Contiguous Refines Inside
PROPERTY Finishes
CHECK_DEADLOCK TRUE

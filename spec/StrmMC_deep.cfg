SPECIFICATION Spec
CONSTANTS
  A = 5
  Runs = 3
  Ns = {1, 2}
  Strides = {1, 2}
INVARIANTS Atomic Frame Aligned
CHECK_DEADLOCK FALSE

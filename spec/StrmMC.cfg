SPECIFICATION Spec
CONSTANTS
  A = 5
  Runs = 2
  Ns = {1, 3}
  Strides = {1, 2}
INVARIANTS Atomic Frame Aligned
CHECK_DEADLOCK FALSE
PROPERTY Ends

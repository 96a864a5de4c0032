SPECIFICATION Spec
CONSTANTS Together = FALSE
          Lock = FALSE
          G = 1
          K = 5
INVARIANTS InOrder Causal Progress Empty
PROPERTY Stable
CHECK_DEADLOCK FALSE

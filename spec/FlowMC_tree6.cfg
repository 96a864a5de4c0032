SPECIFICATION Spec
CONSTANTS Together = FALSE
          Lock = FALSE
          G = 6
          K = 4
INVARIANTS InOrder Causal Progress Empty
PROPERTY Stable
CHECK_DEADLOCK FALSE

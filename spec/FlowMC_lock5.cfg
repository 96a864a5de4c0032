SPECIFICATION Spec
CONSTANTS Together = FALSE
          Lock = TRUE
          G = 5
          K = 5
INVARIANTS InOrder Causal Progress Empty
PROPERTY Stable
CHECK_DEADLOCK FALSE

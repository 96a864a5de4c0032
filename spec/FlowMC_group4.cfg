SPECIFICATION Spec
CONSTANTS Together = TRUE
          Lock = FALSE
          G = 4
          K = 4
INVARIANTS InOrder Causal Progress Empty
PROPERTY Stable
CHECK_DEADLOCK FALSE

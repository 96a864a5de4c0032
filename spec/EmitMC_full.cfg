CONSTANTS MaxActs = 6  CopyOnEmit = TRUE  GlobalHook = FALSE  Numbered = TRUE
SPECIFICATION Spec
INVARIANTS Deterministic OneText
CHECK_DEADLOCK FALSE

CONSTANTS MaxActs = 5  CopyOnEmit = TRUE  GlobalHook = FALSE  Numbered = TRUE
SPECIFICATION Spec
INVARIANTS Deterministic OneText
CHECK_DEADLOCK FALSE

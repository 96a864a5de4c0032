SPECIFICATION Spec
CONSTANTS N = 3
 Stray = TRUE
INVARIANTS Exclusion Agree Answers

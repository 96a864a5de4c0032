SPECIFICATION Spec
CONSTANTS N = 3
 Stray = FALSE
INVARIANTS Exclusion Agree Answers
PROPERTY Progress

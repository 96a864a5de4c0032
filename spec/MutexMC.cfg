SPECIFICATION Spec
CONSTANTS N = 2
 Stray = FALSE
INVARIANTS Exclusion Agree Answers
PROPERTY Progress

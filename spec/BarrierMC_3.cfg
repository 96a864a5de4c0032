SPECIFICATION Spec
CONSTANTS N = 3
 Procs = {1, 2, 3}
INVARIANTS NoEarlyLeave Inside Counts
PROPERTY NotLeftBehind

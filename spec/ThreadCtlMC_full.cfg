INIT Init
NEXT Next
CONSTANTS Children = {1}
 Parents = {1, 2}
 MaxRuns = 6
INVARIANTS Refines ArgsOk JoinOk Once
CHECK_DEADLOCK FALSE

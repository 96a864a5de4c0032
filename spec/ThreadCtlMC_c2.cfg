INIT Init
NEXT Next
CONSTANTS Children = {1, 2}
 Parents = {1}
 MaxRuns = 4
INVARIANTS Refines ArgsOk JoinOk Once
CHECK_DEADLOCK FALSE

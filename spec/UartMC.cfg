CONSTANTS W = 3 NB = 3 MaxBytes = 2
SPECIFICATION Spec
INVARIANTS InOrder Complete

CONSTANTS N = 6
 Lz = 1
 Eg = 1
INIT Init
NEXT Next
INVARIANT Refines

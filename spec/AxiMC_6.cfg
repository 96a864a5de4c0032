CONSTANTS NW = 2 NR = 1 MaxLen = 0 Addrs = {0, 1} TMax = 6 Early = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Exact
CHECK_DEADLOCK FALSE

CONSTANTS NW = 2 NR = 1 MaxLen = 1 Addrs = {0, 1} TMax = 5 Early = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Exact
CHECK_DEADLOCK FALSE

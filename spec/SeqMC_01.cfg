CONSTANTS D = 2
          N = 6
          Lz = 0
          Eg = 1
INIT Init
NEXT Next
INVARIANT Refines

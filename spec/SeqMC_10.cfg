CONSTANTS D = 2
          N = 6
          Lz = 1
          Eg = 0
INIT Init
NEXT Next
INVARIANT Refines

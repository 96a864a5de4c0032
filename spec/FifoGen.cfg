CONSTANTS AW = 2
          MaxIn = 100
          D = 6
INIT GInit
NEXT GNext
INVARIANTS TypeOK FifoOrder

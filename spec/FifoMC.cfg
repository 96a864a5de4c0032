CONSTANTS AW = 2
          MaxIn = 6
SPECIFICATION Spec
INVARIANTS TypeOK FifoOrder FlagsOK
PROPERTY Progress

CONSTANTS MaxW = 10  MaxX = 600
SPECIFICATION Spec
INVARIANTS LoopLaw IfLaw WrapLaw OrderLaw Width
CHECK_DEADLOCK FALSE

CONSTANTS MaxW = 5  MaxX = 40
SPECIFICATION Spec
INVARIANTS LoopLaw IfLaw WrapLaw OrderLaw Width
CHECK_DEADLOCK FALSE

CONSTANTS
 Banks = 4
 Depth = 2
 Ports = 1
 Words = {"a"}
SPECIFICATION Spec
INVARIANTS Same LastWritten

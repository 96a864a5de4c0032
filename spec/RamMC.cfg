CONSTANTS
 Banks = 2
 Depth = 1
 Ports = 2
 Words = {"a", "b"}
SPECIFICATION Spec
INVARIANTS Same LastWritten

CONSTANTS
 Banks = 2
 Depth = 2
 Ports = 2
 Words = {"a", "b"}
SPECIFICATION Spec
INVARIANTS Same LastWritten

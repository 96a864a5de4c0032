CONSTANT WM = 5
INIT Init
NEXT Next
INVARIANT Ok

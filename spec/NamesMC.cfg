CONSTANTS UserNames = {"x", "t0", "t1"} Kinds = {"Input", "Output", "OutputReg", "Inout", "Wire", "Reg", "Parameter", "Instance"} MaxDefs = 3
SPECIFICATION Spec
INVARIANTS Inv Stable

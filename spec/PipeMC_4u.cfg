CONSTANTS W = 4 Signed = FALSE Kind = "div" MaxTok = 1
SPECIFICATION Spec
INVARIANT Agree

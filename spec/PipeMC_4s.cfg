CONSTANTS W = 4 Signed = TRUE Kind = "div" MaxTok = 1
SPECIFICATION Spec
INVARIANT Agree

CONSTANTS W = 2 Signed = TRUE Kind = "div" MaxTok = 2
SPECIFICATION Spec
INVARIANT Agree

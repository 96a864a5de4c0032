CONSTANT Step = 11
INIT MInit
NEXT MNext
INVARIANT Sane
INVARIANT ForAsList
INVARIANT LastIsEnd

CONSTANT Step = 499
INIT MInit
NEXT MNext
INVARIANT Sane
INVARIANT ForAsList
INVARIANT LastIsEnd

INIT HInit
NEXT HNext

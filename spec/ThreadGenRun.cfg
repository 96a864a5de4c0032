INIT GInit
NEXT GNext

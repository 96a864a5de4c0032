CONSTANT Third = TRUE
INIT Init
NEXT Next
INVARIANT Laws

CONSTANT Third = FALSE
INIT Init
NEXT Next
INVARIANT Laws

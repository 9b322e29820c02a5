CONSTANT Deep = FALSE
INIT InitC
NEXT NextC
INVARIANT HoldsC
CHECK_DEADLOCK FALSE

CONSTANT Deep = TRUE
INIT InitC
NEXT NextC
INVARIANT HoldsC
CHECK_DEADLOCK FALSE

\* enumeration models, thorough
CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE

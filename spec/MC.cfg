\* enumeration models, quick
CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE

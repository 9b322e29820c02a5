CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANT Holds
PROPERTY Steps
VIEW Alike
CHECK_DEADLOCK FALSE

CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANT Holds
PROPERTY Steps
VIEW Alike
CHECK_DEADLOCK FALSE

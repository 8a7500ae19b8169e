CONSTANTS Most = 3
SPECIFICATION Spec
INVARIANT Declared
INVARIANT Apart
INVARIANT Asked
CHECK_DEADLOCK FALSE

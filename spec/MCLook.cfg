CONSTANTS Most = 2
SPECIFICATION Spec
INVARIANT Declared
INVARIANT Apart
INVARIANT Asked
CHECK_DEADLOCK FALSE

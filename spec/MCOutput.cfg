CONSTANT Depth = 2
SPECIFICATION Spec
INVARIANT Extension
CHECK_DEADLOCK FALSE

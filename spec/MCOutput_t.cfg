CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANT Extension
CHECK_DEADLOCK FALSE

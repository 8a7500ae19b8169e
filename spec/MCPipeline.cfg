SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Histories Kinds
PROPERTY Grows
CHECK_DEADLOCK FALSE

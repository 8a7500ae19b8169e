SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Histories Kinds
PROPERTY Grows
CHECK_DEADLOCK FALSE

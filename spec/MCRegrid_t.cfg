CONSTANTS
  Names = {"a", "b", "c", "d"}
  MaxDims = 4
SPECIFICATION Spec
INVARIANTS Ordered Masked
CHECK_DEADLOCK FALSE

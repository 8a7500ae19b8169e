CONSTANTS
  Names = {"a", "b", "c"}
  MaxDims = 3
SPECIFICATION Spec
INVARIANTS Ordered Masked
CHECK_DEADLOCK FALSE

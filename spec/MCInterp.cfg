CONSTANTS
  Pts <- P1
  Values <- V1
  Holes = 1
  Xs <- X1
SPECIFICATION Spec
INVARIANTS Correct Exact Bounded
CHECK_DEADLOCK FALSE

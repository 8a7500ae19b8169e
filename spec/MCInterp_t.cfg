CONSTANTS
  Pts <- P2
  Values <- V2
  Holes = 2
  Xs <- X2
SPECIFICATION Spec
INVARIANTS Correct Exact Bounded
CHECK_DEADLOCK FALSE

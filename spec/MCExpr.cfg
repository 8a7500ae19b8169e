CONSTANTS N = 2 Depth = 1
SPECIFICATION Spec
INVARIANT Spread SpreadAll ByPoint Lowest Algebra

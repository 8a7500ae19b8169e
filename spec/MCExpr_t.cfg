CONSTANTS N = 2 Depth = 2
SPECIFICATION Spec
INVARIANT Spread SpreadAll ByPoint Lowest Algebra

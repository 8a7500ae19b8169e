CONSTANTS NV = 2 West = 6 LonMax = 9
SPECIFICATION Spec
INVARIANT Correct
PROPERTY InputKept

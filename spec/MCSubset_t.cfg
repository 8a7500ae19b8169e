CONSTANTS NV = 2 West = 12 LonMax = 13
SPECIFICATION Spec
INVARIANT Correct
PROPERTY InputKept

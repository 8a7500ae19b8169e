CONSTANTS NV = 2 H = 3 A = 2
SPECIFICATION Spec
INVARIANT Correct Symmetric

CONSTANTS NV = 2 H = 2 A = 1
SPECIFICATION Spec
INVARIANT Correct Symmetric

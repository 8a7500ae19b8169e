CONSTANTS N = 3 NV = 2
SPECIFICATION Spec
INVARIANTS Convex Invariances Masks

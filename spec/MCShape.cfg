CONSTANTS N = 2 NV = 2
SPECIFICATION Spec
INVARIANTS Convex Invariances Masks

CONSTANTS N = 1 MaxOps = 3
SPECIFICATION Spec
INVARIANT Missing SameCoords
PROPERTY Operands

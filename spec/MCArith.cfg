CONSTANTS N = 2 MaxOps = 2
SPECIFICATION Spec
INVARIANT Missing SameCoords
PROPERTY Operands

CONSTANTS NV = 4 NG = 3
SPECIFICATION Spec
INVARIANT EachAlone InOrder
PROPERTY Done

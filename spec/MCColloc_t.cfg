CONSTANTS NV = 7 NG = 4
SPECIFICATION Spec
INVARIANT EachAlone InOrder
PROPERTY Done

CONSTANTS N = 12
SPECIFICATION Spec
INVARIANT Tiles Covered NoneBeyond

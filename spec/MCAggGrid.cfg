CONSTANTS N = 6
SPECIFICATION Spec
INVARIANT Tiles Covered NoneBeyond

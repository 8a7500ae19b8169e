CONSTANTS Type = 4 N = 2 Count = 2
SPECIFICATION Spec
INVARIANT Identical Distinct CoordKept Fixed
PROPERTY Unchanged
CHECK_DEADLOCK FALSE

CONSTANTS Big = TRUE
SPECIFICATION Spec
INVARIANT Painted Counted Followed Direction Apart Tiles Transposed Exchanged Round
CHECK_DEADLOCK FALSE

CONSTANTS Big = FALSE
SPECIFICATION Spec
INVARIANT TypeOK RowByRow SoFar Middles Inside Count Cut
CHECK_DEADLOCK FALSE

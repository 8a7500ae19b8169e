CONSTANTS Big = FALSE
SPECIFICATION Spec
INVARIANT TypeOK SameRows SoFar NeverMore Apart OtherUnits Quarters PlacesOnly Months
CHECK_DEADLOCK FALSE

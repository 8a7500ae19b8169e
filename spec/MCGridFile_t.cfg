CONSTANTS Sizes = {1, 2, 3, 5, 6}
SPECIFICATION Spec
INVARIANT Whole Count Stuck TurnTwice TurnedValues
CHECK_DEADLOCK FALSE

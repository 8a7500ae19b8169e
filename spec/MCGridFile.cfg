CONSTANTS Sizes = {1, 2, 4}
SPECIFICATION Spec
INVARIANT Whole Count Stuck TurnTwice TurnedValues
CHECK_DEADLOCK FALSE

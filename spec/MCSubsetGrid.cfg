CONSTANTS Turn = 6 NPts = 3 West = 3 East = 6
SPECIFICATION Spec
INVARIANT Correct

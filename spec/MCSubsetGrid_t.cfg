CONSTANTS Turn = 8 NPts = 4 West = 4 East = 8
SPECIFICATION Spec
INVARIANT Correct

CONSTANTS Turn = 8 NPts = 4 West = 8 East = 8 Steps = 3
SPECIFICATION Spec
INVARIANT Correct

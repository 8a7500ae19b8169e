CONSTANTS Turn = 6 NPts = 3 West = 6 East = 6 Steps = 2
SPECIFICATION Spec
INVARIANT Correct

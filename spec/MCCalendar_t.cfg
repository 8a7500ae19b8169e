CONSTANTS From = 1590 Until = 2110
SPECIFICATION Spec
INVARIANT Counts Zero Known Steps

CONSTANTS From = 1890 Until = 1910
SPECIFICATION Spec
INVARIANT Counts Zero Known Steps

CONSTANTS N = 3 M = 5
SPECIFICATION Spec
INVARIANT NearestFound Stats

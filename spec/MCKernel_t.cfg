CONSTANTS N = 5 M = 6
SPECIFICATION Spec
INVARIANT NearestFound Stats

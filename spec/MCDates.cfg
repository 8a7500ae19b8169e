INIT Init
NEXT Next
INVARIANTS Covers RoundTrip Texts
CONSTANTS Y0 = 1899 Y1 = 1900 N = 4
CHECK_DEADLOCK FALSE

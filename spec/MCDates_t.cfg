INIT Init
NEXT Next
INVARIANTS Covers RoundTrip Texts
CONSTANTS Y0 = 1890 Y1 = 1912 N = 5
CHECK_DEADLOCK FALSE

CONSTANTS MaxV = 1
SPECIFICATION Spec
INVARIANT TypeOK Agree Between Parts Twice Sphere
CHECK_DEADLOCK FALSE

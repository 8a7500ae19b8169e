CONSTANTS MaxV = 2
SPECIFICATION Spec
INVARIANT TypeOK Agree Between Parts Twice Sphere
CHECK_DEADLOCK FALSE

CONSTANTS MaxCoords = 1
SPECIFICATION Spec
INVARIANT TypeOK JoinedOnce AnyOrder Unique NamedOne NothingAsked
CHECK_DEADLOCK FALSE

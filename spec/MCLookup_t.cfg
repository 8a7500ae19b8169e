CONSTANTS MaxCoords = 2
SPECIFICATION Spec
INVARIANT TypeOK JoinedOnce AnyOrder Unique NamedOne NothingAsked
CHECK_DEADLOCK FALSE

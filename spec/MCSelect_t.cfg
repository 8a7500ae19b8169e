CONSTANTS LenP = 3
 LenS = 4
SPECIFICATION Spec
INVARIANT TypeOK CharByChar OneByOne NoDuplicates OnlyFiles Plain Everything Whole
CHECK_DEADLOCK FALSE

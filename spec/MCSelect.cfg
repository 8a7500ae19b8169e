CONSTANTS LenP = 2
 LenS = 3
SPECIFICATION Spec
INVARIANT TypeOK CharByChar OneByOne NoDuplicates OnlyFiles Plain Everything Whole
CHECK_DEADLOCK FALSE

CONSTANTS Depth = 2
 MaxVars = 3
 MaxFiles = 1
SPECIFICATION Spec
INVARIANT TypeOK Once Stepwise EachFile Readable Unlisted
CHECK_DEADLOCK FALSE

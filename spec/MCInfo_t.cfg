CONSTANTS Depth = 2
 MaxVars = 2
 MaxFiles = 2
SPECIFICATION Spec
INVARIANT TypeOK Once Stepwise EachFile Readable Unlisted
CHECK_DEADLOCK FALSE

CONSTANTS MaxDims = 3
 MaxLen = 2
 MaxSets = 1
SPECIFICATION Spec
INVARIANT TypeOK InOrder EachOnce Own OnlyWhatWasSet LastSetWins SameAsAfter Counted
CHECK_DEADLOCK FALSE

CONSTANTS MaxDims = 2
 MaxLen = 3
 MaxSets = 2
SPECIFICATION Spec
INVARIANT TypeOK InOrder EachOnce Own OnlyWhatWasSet LastSetWins SameAsAfter Counted
CHECK_DEADLOCK FALSE

CONSTANTS Depth = 5
 Turns = TRUE
SPECIFICATION Spec
INVARIANT InHeap OneKind OneGround ListsKept Untouched Apart EachNoted SameField SubsetField
CHECK_DEADLOCK FALSE

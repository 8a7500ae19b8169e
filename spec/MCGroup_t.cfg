CONSTANTS
  MaxLen = 7
SPECIFICATION Spec
INVARIANTS SameWords SamePieces NothingLost Escaped Atomic
CHECK_DEADLOCK FALSE

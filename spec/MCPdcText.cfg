SPECIFICATION Spec
CONSTANTS
  Chars <- AB
  MaxLen = 3
  Steps = 0
  Record = FALSE
INVARIANT CutAndJoin Turn Search SplitJoin StarIsAnything FindsIt
CHECK_DEADLOCK FALSE

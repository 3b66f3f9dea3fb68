SPECIFICATION Spec
CONSTANTS
  Chars <- Some
  MaxLen = 0
  Steps = 60
  Record = TRUE
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Files = {1, 2, 3}
  Streams = {1, 2, 3}
  Bytes = {}
  MaxLen = 60
  Steps = 60
  Record = TRUE
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Bufs = {1, 2, 3, 4}
  Far = 6
  Dims = {1, 2, 3}
  Steps = 60
  Record = TRUE
CHECK_DEADLOCK FALSE

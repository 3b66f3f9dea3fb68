SPECIFICATION Spec
CONSTANTS
  Ws <- Words120
  Toks <- Words120
  Ns = 2
  Steps = 60
  Record = TRUE
CHECK_DEADLOCK FALSE

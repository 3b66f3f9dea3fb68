SPECIFICATION Spec
CONSTANTS
  What = "art"
  Hs = {1, 2, 3}
  Ks <- Keys300
  Vs = {1}
  Steps = 40
  Record = TRUE
CHECK_DEADLOCK FALSE

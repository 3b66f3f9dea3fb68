SPECIFICATION Spec
CONSTANTS
  What = "seq"
  Hs = {1, 2}
  Ks = {1, 2}
  Vs = {1, 2}
  Steps = 6
  Record = FALSE
VIEW View
INVARIANT FreedOnce SetLaws
CHECK_DEADLOCK FALSE

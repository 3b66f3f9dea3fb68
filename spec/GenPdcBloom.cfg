SPECIFICATION Spec
CONSTANTS
  Filts = {1, 2, 3}
  Last = 160
  Caps = {8, 16, 33, 64, 200, 1000}
  Invs = {20, 100, 1000}
  Steps = 60
  Record = TRUE
CHECK_DEADLOCK FALSE

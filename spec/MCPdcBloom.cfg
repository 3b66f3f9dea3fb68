SPECIFICATION Spec
CONSTANTS
  Filts = {1}
  Last = 3
  Caps = {3}
  Invs = {20}
  Steps = 6
  Record = FALSE
VIEW View
INVARIANT Bags
CHECK_DEADLOCK FALSE

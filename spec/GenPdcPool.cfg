SPECIFICATION Spec
CONSTANTS
  Clients = {0, 1, 2}
  Most = 4
  Steps = 16
CHECK_DEADLOCK FALSE

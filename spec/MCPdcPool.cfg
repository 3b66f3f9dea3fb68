SPECIFICATION Spec
CONSTANTS
  Pools = {1}
  Jobs = {1, 2, 3}
  Clients = {1}
  Ns = {1, 2}
INVARIANT Bound Waits CanStart
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Script1 <- S1
  Script2 <- S2
INVARIANT Once Waited NotAfter
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
INVARIANT MapInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
INVARIANT MetaInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

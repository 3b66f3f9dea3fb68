SPECIFICATION TraceSpec
INVARIANT DataInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT CutFront = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT CutFront = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

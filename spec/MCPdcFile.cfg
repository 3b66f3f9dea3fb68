SPECIFICATION Spec
CONSTANTS
  Files = {1, 2}
  Streams = {1, 2}
  Bytes = {1, 10}
  MaxLen = 1
  Steps = 5
  Record = FALSE
VIEW View
INVARIANT TextBack Streams_
CHECK_DEADLOCK FALSE

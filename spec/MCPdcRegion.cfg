SPECIFICATION Spec
CONSTANTS
  Bufs = {1, 2}
  Far = 2
  Dims = {1, 2}
  Steps = 3
  Record = FALSE
VIEW View
INVARIANT SetsOfCells RoundTrip
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  CutFront = FALSE
  Texts <- Small
  Objs = {1, 2}
  Limit = 2
  Steps = 0
  Overlap = FALSE
  Record = FALSE
INVARIANT Sound All Lossless
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  CutFront = TRUE
  Texts <- Small
  Objs = {1}
  Limit = 2
  Steps = 0
  Overlap = FALSE
  Record = FALSE
INVARIANT Sound All Lossless
VIEW View
CHECK_DEADLOCK FALSE

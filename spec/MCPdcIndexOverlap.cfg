SPECIFICATION Spec
CONSTANTS
  CutFront = TRUE
  Texts <- Pair
  Objs = {1, 2}
  Limit = 2
  Steps = 0
  Overlap = TRUE
  Record = FALSE
INVARIANT Sound Within
VIEW View
CHECK_DEADLOCK FALSE

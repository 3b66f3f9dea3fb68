SPECIFICATION Spec
CONSTANTS
  CutFront = TRUE
  Texts <- Big
  Objs = {1, 2, 3, 4}
  Limit = 12
  Steps = 50
  Overlap = FALSE
  Record = TRUE
CHECK_DEADLOCK FALSE

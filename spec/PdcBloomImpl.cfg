SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Rows = {1, 2}
  Cells = {1, 2}
  Top = 4
  Cap = 2
  Most = 4
  Scaling = TRUE
VIEW View
INVARIANT NeverDenied EmptyIsEmpty Counted
CHECK_DEADLOCK FALSE

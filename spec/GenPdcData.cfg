SPECIFICATION Spec
CONSTANTS
  Clients = {0}
  ONames = {"A", "B"}
  Shapes <- ShapesG
  MaxX = 60
  Steps = 60
  Profile = "plain"
  Record = TRUE
INVARIANT DataInv
CHECK_DEADLOCK FALSE

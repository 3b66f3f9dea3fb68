SPECIFICATION Spec
CONSTANTS
  Clients = {0, 1}
  ONames = {"A", "B"}
  Shapes <- ShapesG
  Steps = 60
  Profile = "map"
  Record = TRUE
INVARIANT MapInv
CHECK_DEADLOCK FALSE

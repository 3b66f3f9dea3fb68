SPECIFICATION Spec
CONSTANTS
  Clients = {0, 1}
  ONames = {"A"}
  Shapes <- Shapes1
  Steps = 10
  Profile = "map"
  Record = FALSE
VIEW View
CONSTRAINT Small
INVARIANT MapInv
PROPERTY OnlyHolder Handover NobodyForgotten
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Clients = {0, 1}
  ONames = {"A"}
  Shapes <- Shapes1
  MaxX = 2
  Steps = 9
  Profile = "crash"
  Record = FALSE
VIEW View
CONSTRAINT Twice
INVARIANT DataInv
PROPERTY LastWriteWins OnlyWrites Durable
CHECK_DEADLOCK FALSE

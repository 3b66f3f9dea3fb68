SPECIFICATION Spec
CONSTANTS
  Clients = {0, 1}
  CNames = {"A", "B", "C"}
  ONames = {"X", "Y", "Z"}
  TagKeys <- Tags2
  TagVals <- Tags2
  MaxIds = 60
  Steps = 40
  Users = {0, 1, 2}
  Apps = {"a", "b"}
  TSs = {0, 1}
  Slots = 3
  Profile = "name"
  Record = TRUE
INVARIANT MetaInv
CHECK_DEADLOCK FALSE

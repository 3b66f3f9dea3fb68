SPECIFICATION Spec
CONSTANTS
  Clients = {0}
  CNames = {"A", "B"}
  ONames = {"X", "Y"}
  TagKeys <- Tags1
  TagVals <- Tags2
  MaxIds = 4
  Steps = 8
  Users = {0, 1}
  Apps = {"a"}
  TSs = {0}
  Slots = 1
  Profile = "name"
  Record = FALSE
VIEW View
INVARIANT MetaInv
PROPERTY NeverReused Immutable
CHECK_DEADLOCK FALSE

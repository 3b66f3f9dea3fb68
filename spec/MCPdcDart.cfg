SPECIFICATION Spec
CONSTANTS
  Ws <- W2
  Toks <- W2
  Ns = 2
  Steps = 3
  Record = FALSE
VIEW View
INVARIANT Complete Everyone
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS
  XVals = {1}
  AVals = {1}
  Lays = {1}
INVARIANT Emit
CHECK_DEADLOCK FALSE

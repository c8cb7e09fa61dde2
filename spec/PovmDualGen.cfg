SPECIFICATION GSpec
CONSTANTS
  K = 2
  Depth = 0
  OpSet = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE

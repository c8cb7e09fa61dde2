SPECIFICATION GSpec
CONSTANTS
  N = 1
  Ws = {1}
  Depth = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE

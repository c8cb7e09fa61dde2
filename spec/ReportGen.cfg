SPECIFICATION GSpec
CONSTANTS
  Limits = {0}
  Tols = {0}
  Vars = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE

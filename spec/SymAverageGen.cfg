SPECIFICATION GSpec
CONSTANTS
  Max1 = 1
  Max2 = 1
  Syms = {"translation"}
  Exps = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE

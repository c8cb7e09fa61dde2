SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  Props = {"POVM"}
  Mu2s = {2, 4}
  Coefs = {1, 2, 3}
  MaxSteps = 2
  MaxCalls = 2
INVARIANTS NeverZero Sector Counters Continues Complete Balance
CHECK_DEADLOCK FALSE

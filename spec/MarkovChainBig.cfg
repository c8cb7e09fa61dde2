SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Props = {"spin_flip", "spin_flip_Z2", "zeroMag"}
  Mu2s = {0, 2, 4, 8}
  Coefs = {0, 1, 2, 3}
  MaxSteps = 4
  MaxCalls = 2
INVARIANTS NeverZero Sector Counters Continues Complete Balance
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Props = {"spin_flip_Z2", "zeroMag"}
  Mu2s = {2, 4}
  Coefs = {1, 2}
  MaxSteps = 2
  MaxCalls = 2
INVARIANTS NeverZero Sector Counters Continues Complete Balance
CHECK_DEADLOCK FALSE

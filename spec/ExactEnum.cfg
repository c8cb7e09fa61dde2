SPECIFICATION Spec
CONSTANTS
  Ls = {2, 3}
  Ns = {1, 2, 3}
  MaxR = 3
  MaxD = 4
  ThVals <- ThSmall
INVARIANTS OnceInv LegalInv NormInv
CHECK_DEADLOCK FALSE

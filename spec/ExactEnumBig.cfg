SPECIFICATION Spec
CONSTANTS
  Ls = {2, 3, 4}
  Ns = {1, 2, 3}
  MaxR = 4
  MaxD = 7
  ThVals <- ThSmall
INVARIANTS OnceInv LegalInv NormInv
CHECK_DEADLOCK FALSE

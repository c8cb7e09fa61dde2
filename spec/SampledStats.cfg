SPECIFICATION Spec
CONSTANTS
  XVals <- XV
  AVals = {1, 2}
  Lays <- LY
INVARIANTS VarReal Hermitian CovMean KernelTrace
CHECK_DEADLOCK FALSE

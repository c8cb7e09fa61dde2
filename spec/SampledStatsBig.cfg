SPECIFICATION Spec
CONSTANTS
  XVals <- XVB
  AVals = {1, 2}
  Lays <- LYB
INVARIANTS VarReal Hermitian CovMean KernelTrace
CHECK_DEADLOCK FALSE

SPECIFICATION ASpec
CONSTANTS
  Vals = {0, 1}
  Ws = {1}
  NS = 3
  NPar = 2
  Sets = {1}
  MaxCalls = 1
INVARIANTS Hermitian Positive OffsetFree NoForce Solvable
CHECK_DEADLOCK FALSE

SPECIFICATION ESpec
CONSTANTS
  Vals = {0}
  Ws = {1}
  NS = 1
  NPar = 1
  Sets = {1}
  MaxCalls = 1
  NC = 3
  Amps <- A2
  Els <- E2
  Xs <- X2
  Counts = {0, 2}
  Box <- B1
INVARIANTS ExactMotion Unique Conserved
CHECK_DEADLOCK FALSE

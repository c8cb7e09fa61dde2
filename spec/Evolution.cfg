SPECIFICATION ESpec
CONSTANTS
  Vals = {0}
  Ws = {1}
  NS = 1
  NPar = 1
  Sets = {1}
  MaxCalls = 1
  NC = 2
  Amps <- A2
  Els <- E3
  Xs <- X3
  Counts = {0, 1, 3}
  Box <- B1
INVARIANTS ExactMotion Unique Conserved
CHECK_DEADLOCK FALSE

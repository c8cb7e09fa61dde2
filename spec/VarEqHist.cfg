SPECIFICATION HSpec
CONSTANTS
  Vals = {0}
  Ws = {1}
  NS = 1
  NPar = 1
  Sets = {1, 2, 3}
  MaxCalls = 5
INVARIANTS Answer Reports
PROPERTIES Stable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxR = 3
  MaxD = 3
  MaxC = 2
  MaxCalls = 5
  MaxSteps = 2
  Roots = {1, 2, 3}
INVARIANTS NoReuse Reproducible Ahead Distinct
CHECK_DEADLOCK FALSE

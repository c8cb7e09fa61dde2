SPECIFICATION Spec
CONSTANTS
  MaxR = 2
  MaxD = 2
  MaxC = 2
  MaxCalls = 4
  MaxSteps = 2
  Roots = {1, 2}
INVARIANTS NoReuse Reproducible Ahead Distinct
CHECK_DEADLOCK FALSE

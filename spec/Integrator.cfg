SPECIFICATION Spec
CONSTANTS
  MaxDt = 12
  StartDts = {1, 4, 12}
  Limits = {3, 8}
  Qs = {1, 2, 5, 9, 20}
  MaxSteps = 3
INVARIANTS Tables Bounded LogOK FromStart Fixed
PROPERTIES Terminates FactorRange
CHECK_DEADLOCK FALSE

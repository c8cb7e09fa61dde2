SPECIFICATION Spec
CONSTANTS
  MaxDt = 12
  StartDts = {1, 2, 3, 5, 8, 13, 24}
  Limits = {1, 2, 3, 7, 16}
  Qs = {1, 2, 3, 5, 8, 13, 21, 34}
  MaxSteps = 4
INVARIANTS Tables Bounded LogOK FromStart Fixed
PROPERTIES Terminates FactorRange
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxN = 9
  MaxB = 10
  MaxNB = 4
INVARIANTS Complete Usable NoPaddingLeaks
CHECK_DEADLOCK FALSE

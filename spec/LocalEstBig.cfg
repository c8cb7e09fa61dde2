SPECIFICATION Spec
CONSTANTS
  MaxN = 25
  MaxB = 27
  MaxNB = 7
INVARIANTS Complete Usable NoPaddingLeaks
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NSites = 3
  Names = {"c", "c+", "n", "Sz"}
  MaxStrs = 1
  MaxStrLen = 2
  Values <- Vals1
INVARIANTS CAR Faithful
CHECK_DEADLOCK FALSE

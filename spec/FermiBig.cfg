SPECIFICATION Spec
CONSTANTS
  NSites = 4
  Names = {"c", "c+", "n", "Sz", "Id"}
  MaxStrs = 1
  MaxStrLen = 2
  Values <- Vals1
INVARIANTS CAR Faithful
CHECK_DEADLOCK FALSE

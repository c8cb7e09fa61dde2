SPECIFICATION Spec
CONSTANTS
  NSites = 2
  Names = {"Sx", "Sy", "Sz", "Sp", "Sm"}
  MaxStrs = 2
  MaxStrLen = 2
  Values <- Vals2
INVARIANTS Faithful Tight
CHECK_DEADLOCK FALSE

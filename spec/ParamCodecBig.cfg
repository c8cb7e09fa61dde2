SPECIFICATION Spec
CONSTANTS
  MaxP = 4
  Vals = {0, 1, 3}
INVARIANTS RoundTrip ReadBack Additive
CHECK_DEADLOCK FALSE

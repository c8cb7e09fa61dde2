SPECIFICATION Spec
CONSTANTS
  MaxP = 3
  Vals = {0, 1}
INVARIANTS RoundTrip ReadBack Additive
CHECK_DEADLOCK FALSE

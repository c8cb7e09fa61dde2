SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4, 5}
  MaxOps = 12
INVARIANTS UsesNamed Untouched
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  MaxOps = 4
INVARIANTS UsesNamed Untouched
CHECK_DEADLOCK FALSE

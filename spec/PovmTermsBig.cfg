SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxTerms = 3
  MaxSize = 3
INVARIANTS Once OnSites
CHECK_DEADLOCK FALSE

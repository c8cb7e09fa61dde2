SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxTerms = 3
  MaxSize = 2
INVARIANTS Once OnSites
CHECK_DEADLOCK FALSE

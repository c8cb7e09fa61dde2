SPECIFICATION Spec
CONSTANTS
  Vals = {0, 2}
  Wts = {1, 3}
  MaxR = 2
  MaxD = 2
INVARIANTS ResultInv MatchInv
PROPERTY Live
CHECK_DEADLOCK TRUE

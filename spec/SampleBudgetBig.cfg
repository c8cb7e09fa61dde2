SPECIFICATION Spec
CONSTANTS
  MaxR = 6
  MaxD = 4
  Blocks = {1, 2, 3, 6}
  MaxN = 30
  MaxReq = 1
INVARIANTS BudgetInv RangesInv
CHECK_DEADLOCK FALSE

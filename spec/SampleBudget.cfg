SPECIFICATION Spec
CONSTANTS
  MaxR = 4
  MaxD = 3
  Blocks = {1, 2, 3, 6}
  MaxN = 14
  MaxReq = 1
INVARIANTS BudgetInv RangesInv
CHECK_DEADLOCK FALSE

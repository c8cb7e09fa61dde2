SPECIFICATION GSpec
CONSTANTS MaxL = 1 MaxL2 = 1 Vals = 2 Den = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE

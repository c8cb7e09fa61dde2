SPECIFICATION GSpec
CONSTANTS
  Groups = {"/"}
  Kinds = {"obs"}
  Names = {"x"}
  TimesC = {0}
  MaxOps = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE

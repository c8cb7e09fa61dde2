SPECIFICATION Spec
CONSTANTS
  Groups = {"/", "a"}
  Kinds = {"obs", "ckpt"}
  Names = {"x", "y"}
  TimesC = {0, 3}
  MaxOps = 4
INVARIANTS Exact Aligned Lookup Sums
PROPERTIES NothingLost
CHECK_DEADLOCK FALSE

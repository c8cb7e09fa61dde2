SPECIFICATION Spec
CONSTANTS
  Groups = {"/", "a"}
  Kinds = {"obs", "meta", "ckpt"}
  Names = {"x", "y"}
  TimesC = {0, 3}
  MaxOps = 5
INVARIANTS Exact Aligned Lookup Sums
PROPERTIES NothingLost
CHECK_DEADLOCK FALSE

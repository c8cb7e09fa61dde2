SPECIFICATION Spec
CONSTANTS
  Max1 = 3
  Max2 = 2
  Syms = {"translation", "reflection", "rotation", "spinflip"}
  Exps = {0, 6}
  CoA <- CA1
  CoB <- CB1
INVARIANTS Covariant Invariant
CHECK_DEADLOCK FALSE

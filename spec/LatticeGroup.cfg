SPECIFICATION Spec
CONSTANTS
  Max1 = 5
  Max2 = 3
  Syms = {"translation", "reflection", "rotation", "spinflip"}
  Exps = {0, 6}
INVARIANTS Closed Inverses Homomorphism Trivial OrderOK
CHECK_DEADLOCK FALSE

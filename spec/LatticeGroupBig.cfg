SPECIFICATION Spec
CONSTANTS
  Max1 = 8
  Max2 = 4
  Syms = {"translation", "reflection", "rotation", "spinflip"}
  Exps = {0, 3, 4, 6}
INVARIANTS Closed Inverses Homomorphism Trivial OrderOK
CHECK_DEADLOCK FALSE

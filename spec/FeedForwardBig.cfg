CONSTANTS
    N = 5
    Ws = {1, 2}
    Depth = 2
SPECIFICATION Spec
INVARIANTS Equivariant Invariant Shape
CHECK_DEADLOCK FALSE

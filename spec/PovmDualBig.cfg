CONSTANTS
    K = 2
    Depth = 3
    OpSet <- Xops
SPECIFICATION Spec
INVARIANTS InStep Hermitian ConservesProbability Expectation
CHECK_DEADLOCK FALSE

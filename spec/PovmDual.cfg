CONSTANTS
    K = 2
    Depth = 2
    OpSet <- XopsSmall
SPECIFICATION Spec
INVARIANTS InStep Hermitian ConservesProbability Expectation
CHECK_DEADLOCK FALSE

CONSTANTS
    Limits = {0, 1, 2, 3, 4, 5, 6}
    Tols = {0, 1, 2}
    Vars = {0, 1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS StepCount Recorded Inputs
CHECK_DEADLOCK FALSE

CONSTANTS
    Limits = {0, 1, 2, 4}
    Tols = {0, 1, 2}
    Vars = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS StepCount Recorded Inputs
CHECK_DEADLOCK FALSE

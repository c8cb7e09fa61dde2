SPECIFICATION TraceSpec
CONSTANTS
  Limits = {0}
  Tols = {0}
  Vars = {0}
  TStart <- Start
  TFails <- Fails
  TStep <- Step
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANTS
  MaxDt = 1
  StartDts = {1}
  Limits = {1}
  Qs = {1}
  MaxSteps = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANTS
  N = 1
  Ws = {1}
  Depth = 0
  TStart <- Start
  TFails <- Fails
  TStep <- Step
CHECK_DEADLOCK FALSE

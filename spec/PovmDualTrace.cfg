SPECIFICATION TraceSpec
CONSTANTS
  K = 2
  Depth = 0
  OpSet = {}
  TStart <- Start
  TFails <- Fails
  TStep <- Step
CHECK_DEADLOCK FALSE

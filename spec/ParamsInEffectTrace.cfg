SPECIFICATION TraceSpec
CONSTANTS
  Ids = {1}
  MaxOps = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step

SPECIFICATION TraceSpec
CONSTANTS
  MaxP = 1
  Vals = {0}
  TStart <- Start
  TFails <- Fails
  TStep <- Step

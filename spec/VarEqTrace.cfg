SPECIFICATION TraceSpec
CONSTANTS
  Vals = {0}
  Ws = {1}
  NS = 1
  NPar = 1
  Sets = {1}
  MaxCalls = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step
CHECK_DEADLOCK FALSE

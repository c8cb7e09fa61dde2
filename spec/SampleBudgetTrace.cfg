SPECIFICATION TraceSpec
CONSTANTS
  MaxR = 1
  MaxD = 1
  Blocks = {1}
  MaxN = 1
  MaxReq = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step

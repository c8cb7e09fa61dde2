SPECIFICATION TraceSpec
CONSTANTS
  MaxL = 1
  MaxL2 = 1
  Vals = 2
  Den = 2
  TStart <- Start
  TFails <- Fails
  TStep <- Step

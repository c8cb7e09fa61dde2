SPECIFICATION TraceSpec
CONSTANTS
  MaxR = 1
  MaxD = 1
  MaxC = 1
  MaxCalls = 1
  MaxSteps = 1
  Roots = {1}
  TStart <- Start
  TFails <- Fails
  TStep <- Step

SPECIFICATION TraceSpec
CONSTANTS
  Ls = {2}
  Ns = {1}
  MaxR = 1
  MaxD = 1
  ThVals = {0}
  TStart <- Start
  TFails <- Fails
  TStep <- Step

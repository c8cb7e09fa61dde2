SPECIFICATION TraceSpec
CONSTANTS
  Vals = {0}
  Wts = {1}
  MaxR = 1
  MaxD = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step

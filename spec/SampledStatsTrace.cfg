SPECIFICATION TraceSpec
CONSTANTS
  XVals = {1}
  AVals = {1}
  Lays = {1}
  TStart <- Start
  TFails <- Fails
  TStep <- Step

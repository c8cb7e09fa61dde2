SPECIFICATION TraceSpec
CONSTANTS
  N = 1
  MaxTerms = 1
  MaxSize = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step

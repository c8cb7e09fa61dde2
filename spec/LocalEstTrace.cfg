SPECIFICATION TraceSpec
CONSTANTS
  NSites = 1
  Names = {"Id"}
  MaxStrs = 1
  MaxStrLen = 1
  Values = {1}
  TStart <- Start
  TFails <- Fails
  TStep <- Step

SPECIFICATION TraceSpec
CONSTANTS
  Max1 = 1
  Max2 = 1
  Syms = {"translation"}
  Exps = {0}
  TStart <- Start
  TFails <- Fails
  TStep <- Step

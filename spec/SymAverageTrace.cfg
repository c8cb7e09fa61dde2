SPECIFICATION TraceSpec
CONSTANTS
  Max1 = 1
  Max2 = 1
  Syms = {"translation"}
  Exps = {0}
  CoA <- CA1
  CoB <- CB1
  TStart <- Start
  TFails <- Fails
  TStep <- Step

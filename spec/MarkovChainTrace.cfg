SPECIFICATION TraceSpec
CONSTANTS
  MaxN = 2
  Props = {"spin_flip"}
  Mu2s = {2}
  Coefs = {1}
  MaxSteps = 1
  MaxCalls = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step

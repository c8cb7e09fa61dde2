SPECIFICATION TraceSpec
CONSTANTS
  Groups = {"/"}
  Kinds = {"obs"}
  Names = {"x"}
  TimesC = {0}
  MaxOps = 1
  TStart <- Start
  TFails <- Fails
  TStep <- Step
CHECK_DEADLOCK FALSE

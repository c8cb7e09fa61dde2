SPECIFICATION Spec
CONSTANTS MaxL = 2 MaxL2 = 4 Vals = 3 Den = 5
INVARIANTS SampledIsEvaluated PrefixMarginal WalkOrder WalkBijective
CHECK_DEADLOCK FALSE

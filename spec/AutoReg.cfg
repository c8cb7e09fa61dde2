SPECIFICATION Spec
CONSTANTS MaxL = 3 MaxL2 = 2 Vals = 2 Den = 4
INVARIANTS SampledIsEvaluated PrefixMarginal WalkOrder WalkBijective
CHECK_DEADLOCK FALSE

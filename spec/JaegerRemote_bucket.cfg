CONSTANTS SimLen = 11
CONSTANT Quarters = {1, 3, 4, 9}
INIT Init
NEXT BucketStep
INVARIANT Limited
INVARIANT RateBound
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

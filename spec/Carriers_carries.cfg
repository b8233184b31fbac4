CONSTANTS SimLen = 4
INIT Init
NEXT Carries
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS SimLen = 10
INIT Init
NEXT Config
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

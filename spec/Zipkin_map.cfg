CONSTANTS SimLen = 10
INIT Init
NEXT Map
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

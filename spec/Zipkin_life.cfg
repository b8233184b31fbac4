CONSTANTS SimLen = 10
INIT Init
NEXT Life
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

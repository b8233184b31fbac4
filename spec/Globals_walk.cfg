CONSTANTS SimLen = 60 MaxHandles = 8 Far = TRUE
CONSTANT Scopes <- AllScopes
INIT Init
NEXT Walk
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

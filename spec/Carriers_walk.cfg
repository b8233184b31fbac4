CONSTANTS SimLen = 40
INIT Init
NEXT Walk
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

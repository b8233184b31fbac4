CONSTANTS SimLen = 10
INIT Init
NEXT Walk
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS SimLen = 60
CONSTANT Quarters = {}
INIT Init
NEXT Walk
INVARIANT Limited
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

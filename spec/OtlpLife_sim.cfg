CONSTANTS MaxOps = 0  SimLen = 14
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

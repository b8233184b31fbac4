CONSTANTS Setups = {"mix"}
CONSTANTS MaxOps = 100000 SimLen = 60
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

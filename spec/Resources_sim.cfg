CONSTANTS SvcNames = {"-", "", "sn"}  MaxOps = 100  MaxProvides = 2  SimLen = 12
CONSTANT EnvLists <- WideEnv
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS SvcNames = {"-", "", "sn"}  MaxOps = 1  MaxProvides = 1  SimLen = 0
CONSTANT EnvLists <- WideEnv
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

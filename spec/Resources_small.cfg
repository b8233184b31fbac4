CONSTANTS SvcNames = {"-", "sn"}  MaxOps = 3  MaxProvides = 0  SimLen = 0
CONSTANT EnvLists <- SmallEnv
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS MaxOps = 4  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS MaxParts = 3  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

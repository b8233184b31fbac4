CONSTANTS Part = "logs"
 Max = 3
 Few = TRUE
 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

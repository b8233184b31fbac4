CONSTANTS Part = "logs"
 Max = 2
 Few = TRUE
 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT NextSim
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

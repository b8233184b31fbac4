CONSTANTS Src = "log" Rich = TRUE Part = "values" SimLen = 2 MaxCtx = 4
CONSTANT Pick <- PickOne
INIT Init
NEXT SerdeRandom
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

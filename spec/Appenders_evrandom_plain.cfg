CONSTANTS Src = "event" Rich = FALSE Part = "values" SimLen = 2 MaxCtx = 4
CONSTANT Pick <- PickOne
INIT Init
NEXT EventRandom
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

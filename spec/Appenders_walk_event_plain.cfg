CONSTANTS Src = "event" Rich = FALSE Part = "flow" SimLen = 40 MaxCtx = 4
CONSTANT Pick <- PickOne
INIT Init
NEXT Walk
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

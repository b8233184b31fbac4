CONSTANTS Src = "event" Rich = TRUE Part = "values" SimLen = 2 MaxCtx = 4
CONSTANT Pick <- PickAll
INIT Init
NEXT EventValues
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS Src = "event" Rich = TRUE Part = "values" SimLen = 7 MaxCtx = 4
CONSTANT Pick <- PickAll
INIT Init
NEXT Short
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

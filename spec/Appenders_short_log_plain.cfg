CONSTANTS Src = "log" Rich = FALSE Part = "values" SimLen = 8 MaxCtx = 4
CONSTANT Pick <- PickAll
INIT Init
NEXT Short
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

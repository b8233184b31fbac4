CONSTANTS Src = "event" Rich = FALSE Part = "flow" SimLen = 2 MaxCtx = 4
CONSTANT Pick <- PickAll
INIT Init
NEXT Filters
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

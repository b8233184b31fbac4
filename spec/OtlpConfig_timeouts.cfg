CONSTANTS Part = "timeouts"
 MaxList = 2
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

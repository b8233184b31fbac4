CONSTANTS Part = "batch"  Max = 2  Wide = FALSE
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

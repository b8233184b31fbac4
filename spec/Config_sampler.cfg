CONSTANTS Part = "sampler"  Max = 1  Wide = FALSE
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

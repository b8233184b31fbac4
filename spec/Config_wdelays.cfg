CONSTANTS Part = "delays"  Max = 3  Wide = TRUE
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

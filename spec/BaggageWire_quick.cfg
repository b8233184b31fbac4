CONSTANTS N1 = 2  N2 = 4  N3 = 3  NM = 2
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS N1 = 3  N2 = 5  N3 = 4  NM = 3
INIT Init
NEXT Next
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

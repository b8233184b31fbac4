CONSTANTS SimLen = 4
INIT Init
NEXT Edits
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

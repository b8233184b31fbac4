CONSTANTS SimLen = 9
CONSTANT Quarters = {}
INIT Init
NEXT Life
INVARIANT Limited
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

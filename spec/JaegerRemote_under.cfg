CONSTANTS SimLen = 10
CONSTANT Quarters = {}
INIT Init
NEXT Under
INVARIANT Limited
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

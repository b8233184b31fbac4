CONSTANTS SimLen = 10
CONSTANT Quarters = {}
INIT Init
NEXT Config
INVARIANT Limited
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS SimLen = 10
CONSTANT Quarters = {}
INIT Init
NEXT Decisions
INVARIANT Limited
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

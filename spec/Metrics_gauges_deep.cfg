CONSTANTS Setups = {"orders_gauge", "limit_gauge", "late", "v_none"}
CONSTANTS MaxOps = 6 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

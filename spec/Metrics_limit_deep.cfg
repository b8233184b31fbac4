CONSTANTS Setups = {"limit1", "limit2", "limit_hist", "limit_gauge", "limit_view"}
CONSTANTS MaxOps = 6 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

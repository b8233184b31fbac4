CONSTANTS Setups = {"hist_f", "hist_u"}
CONSTANTS MaxOps = 2 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

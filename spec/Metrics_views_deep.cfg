CONSTANTS Setups = {"v_rename", "v_filter", "v_none", "v_two", "v_drop", "v_scope", "v_wild", "v_unit"}
CONSTANTS MaxOps = 5 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

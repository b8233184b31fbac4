CONSTANTS Setups = {"ident", "again", "late"}
CONSTANTS MaxOps = 4 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

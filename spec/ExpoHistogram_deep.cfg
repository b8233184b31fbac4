CONSTANTS Setups = {"tiny", "four", "three", "pow", "neg", "extreme", "one", "ints", "updown", "gauge"}
CONSTANTS MaxOps = 6 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS Kinds = {"meter"} Setups = {"none","two","bad1","bad2"} MaxH = 2 MaxT = 3 MaxS = 0 MaxOps = 6
CONSTANTS SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Once
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

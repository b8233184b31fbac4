CONSTANTS Kinds = {"trace"} Setups = {"none","one","bad1","bad2"} MaxH = 2 MaxT = 2 MaxS = 2 MaxOps = 6
CONSTANTS SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Once
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

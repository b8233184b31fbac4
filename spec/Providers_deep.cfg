CONSTANTS Kinds = {"trace","log"} Setups = {"one","none","two","bad1","bad2","bad3","off","offs"} MaxH = 2 MaxT = 2 MaxS = 2 MaxOps = 7
CONSTANTS SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Once
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

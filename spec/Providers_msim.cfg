CONSTANTS Kinds = {"meter"} Setups = {"one","none","two","bad1","bad2"} MaxH = 3 MaxT = 5 MaxS = 0 MaxOps = 1000
CONSTANTS SimLen = 40
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim

INVARIANT Once
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS NThreads = 2  MaxPos = 65535  MaxDepth = 14  Fill = 0  SimLen = 60
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS NThreads = 2  MaxPos = 65535  MaxDepth = 4  Fill = 0  SimLen = 60
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

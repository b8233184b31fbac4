CONSTANTS NThreads = 1  MaxPos = 4  MaxDepth = 7  Fill = 65531  SimLen = 60
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS NThreads = 2  NFuts = 2  MaxAttach = 1  MaxChain = 2  SimLen = 0  Kinds = {"future"}
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

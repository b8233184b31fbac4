CONSTANTS Keys = {"a", "b@v", "c"}  MaxPool = 4  MaxList = 2  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS Keys = {"a", "b@v", "c", "d", "e0"}  MaxPool = 40  MaxList = 5  SimLen = 25
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS MaxPool = 14  SimLen = 14  Types = {"A", "B", "C"}  Vias = {"own", "cur"}
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS MaxPool = 4  SimLen = 0  Types = {"A"}  Vias = {"own"}
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
PROPERTY SupSticks
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

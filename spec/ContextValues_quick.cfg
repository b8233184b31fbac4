CONSTANTS MaxPool = 3  SimLen = 0  Types = {"A", "B"}  Vias = {"own", "cur"}
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
PROPERTY SupSticks
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

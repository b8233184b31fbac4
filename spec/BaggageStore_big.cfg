CONSTANTS Names = {"n1", "n2"}  NameLen = 2  ValLens = {0, 4094, 8188, 8190, 8191}  MetaLens = {0, 1}  FillN = 0  FillLen = 10  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

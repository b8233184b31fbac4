CONSTANTS Names = {"n1", "n2", "n3"}  NameLen = 2  ValLens = {0, 5}  MetaLens = {0, 3}  FillN = 62  FillLen = 20  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS Names = {"n1", "n2"}  NameLen = 2  ValLens = {0, 10, 16, 17, 18}  MetaLens = {0, 1, 2}  FillN = 4  FillLen = 2043  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

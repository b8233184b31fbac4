CONSTANTS Names = {"n1", "n2", "n3", "n4"}  NameLen = 2  ValLens = {0, 10, 50, 100, 2000}  MetaLens = {0, 1, 7, 400}  FillN = 61  FillLen = 100  SimLen = 60
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

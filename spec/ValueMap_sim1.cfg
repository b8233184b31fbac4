CONSTANTS Limit = 1 Progs <- Walks Recheck = TRUE Cas = TRUE Hold = TRUE Together = TRUE Fresh = TRUE SimLen = 60
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS Mods = {"none", "attr", "body", "trace"} Slots = {1, 2} Loggers = {1, 2, 3} Bulk = {0, 1, 2, 4, 5, 6, 11} MaxOps = 1000 MaxCtx = 4 SimLen = 60
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

CONSTANTS Mods = {"none"} Slots = {1} Loggers = {1, 2} Bulk = {0, 6} MaxOps = 4 MaxCtx = 2 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Kept
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

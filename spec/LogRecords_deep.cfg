CONSTANTS Mods = {"none"} Slots = {1} Loggers = {1} Bulk = {5} MaxOps = 5 MaxCtx = 2 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Kept
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

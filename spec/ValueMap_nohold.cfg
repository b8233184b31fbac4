CONSTANTS Limit = 1 Progs <- Small Recheck = TRUE Cas = TRUE Hold = FALSE Together = TRUE Fresh = TRUE SimLen = 0
CONSTANT Pick <- PickAll
SPECIFICATION Safe
INVARIANTS Once Own NothingEmpty Capped Conserved Prompt NoWaitForever
CHECK_DEADLOCK FALSE

CONSTANTS Cap = 2 Batch = 2 Progs <- Walks HasFlag = FALSE AddFirst = TRUE DrainAll = TRUE StopEmpty = TRUE Timers = 0 SimLen = 80
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitSim

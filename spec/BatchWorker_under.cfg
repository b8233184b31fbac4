CONSTANTS Cap = 2 Batch = 2 Progs <- Small HasFlag = FALSE AddFirst = FALSE DrainAll = TRUE StopEmpty = TRUE Timers = 1 SimLen = 0
CONSTANT Pick <- PickAll
SPECIFICATION Safe
INVARIANT NoUnderflow
CHECK_DEADLOCK FALSE

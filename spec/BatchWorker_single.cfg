CONSTANTS Cap = 3 Batch = 1 Progs <- Small HasFlag = TRUE AddFirst = TRUE DrainAll = FALSE StopEmpty = TRUE Timers = 0 SimLen = 0
CONSTANT Pick <- PickAll
SPECIFICATION Safe
INVARIANT Drained
CHECK_DEADLOCK FALSE

CONSTANTS Cap = 1 Batch = 1 Progs <- Tiny HasFlag = FALSE AddFirst = TRUE DrainAll = TRUE StopEmpty = FALSE Timers = 0 SimLen = 0
CONSTANT Pick <- PickAll
SPECIFICATION Spec
PROPERTY AllReturn
CHECK_DEADLOCK FALSE

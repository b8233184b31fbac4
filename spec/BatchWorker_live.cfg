CONSTANTS Cap = 1 Batch = 1 Progs <- Tiny HasFlag = TRUE AddFirst = TRUE DrainAll = TRUE StopEmpty = TRUE Timers = 0 SimLen = 0
CONSTANT Pick <- PickAll
SPECIFICATION Spec
INVARIANTS InOrderOnce BatchBound Drained Capacity NoUnderflow Counted ShutOnce
PROPERTY AllReturn
CHECK_DEADLOCK FALSE

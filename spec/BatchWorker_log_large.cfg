CONSTANTS Cap = 2 Batch = 1 Progs <- Large HasFlag = FALSE AddFirst = TRUE DrainAll = TRUE StopEmpty = TRUE Timers = 1 SimLen = 0
CONSTANT Pick <- PickAll
SPECIFICATION Safe
INVARIANTS InOrderOnce BatchBound Drained Capacity NoUnderflow Counted ShutOnce

CHECK_DEADLOCK FALSE

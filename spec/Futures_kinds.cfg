CONSTANTS NThreads = 1  NFuts = 1  MaxAttach = 1  MaxChain = 1  SimLen = 0  Kinds = {"future", "stream", "sink_ready", "sink_send", "sink_flush", "sink_close"}
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

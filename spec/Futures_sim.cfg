CONSTANTS NThreads = 2  NFuts = 4  MaxAttach = 3  MaxChain = 3  SimLen = 50  Kinds = {"future", "stream", "sink_ready", "sink_send", "sink_flush", "sink_close"}
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

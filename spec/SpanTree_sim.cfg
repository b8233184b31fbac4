CONSTANTS Samplers = {"on", "off", "ratio1", "ratio2", "ratio0", "rationeg", "ts", "reconly", "pb_on", "pb_off", "pb_ratio1", "pb_ratio0", "pb_pb_on", "pb_reconly"}
CONSTANTS MaxSpans = 8  MaxOps = 1000  SimLen = 25
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim

INVARIANT Inv
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

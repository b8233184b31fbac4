CONSTANTS Samplers = {"on", "off", "ratio1", "ratio2", "ratio0", "rationeg", "ts", "reconly", "pb_on", "pb_off", "pb_ratio1", "pb_ratio0", "pb_pb_on", "pb_reconly"}
CONSTANTS MaxSpans = 3  MaxOps = 4  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

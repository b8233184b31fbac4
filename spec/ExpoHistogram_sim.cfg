CONSTANTS Setups = {"walk160", "walk5", "walk20", "walknear", "walkfar", "walkint", "walkcnt", "tiny", "four", "three", "updown"}
CONSTANTS MaxOps = 100000 SimLen = 60
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

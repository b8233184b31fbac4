CONSTANTS Setups = {"obs", "obs_cum", "obs_two", "obs_mix", "obs_low", "obs_dup"}
CONSTANTS MaxOps = 6 SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE

CONSTANTS SimLen = 5 MaxHandles = 2 Far = FALSE
CONSTANT Scopes <- TwoScopes
INIT Init
NEXT Traces
INVARIANT Inv
ACTION_CONSTRAINT EmitEnd
CHECK_DEADLOCK FALSE

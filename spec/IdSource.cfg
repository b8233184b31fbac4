INIT Init
NEXT Issue
INVARIANT Fresh
CHECK_DEADLOCK FALSE

CONSTANTS Zero = 2  One = 15
INIT Init
NEXT Next
INVARIANT Consistent
CHECK_DEADLOCK FALSE

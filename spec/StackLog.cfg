INIT Init
NEXT Next
INVARIANT Increasing
CHECK_DEADLOCK FALSE

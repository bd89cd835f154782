INIT Init
NEXT Next
INVARIANT Monotone
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Progress
CHECK_DEADLOCK FALSE

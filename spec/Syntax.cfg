INIT Init
NEXT Next
INVARIANT Scopes
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT ScopesNested
INVARIANT TagsExist
CHECK_DEADLOCK FALSE

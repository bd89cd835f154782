SPECIFICATION Spec
CONSTANT Batch = 100
INVARIANT Sane
CHECK_DEADLOCK FALSE

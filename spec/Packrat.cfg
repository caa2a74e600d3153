SPECIFICATION Spec
INVARIANTS Sound Exact BestIsLeast
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Runs Counts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS SameReading Runs
CHECK_DEADLOCK FALSE

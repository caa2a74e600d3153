SPECIFICATION Spec
INVARIANT NothingInvented
CHECK_DEADLOCK FALSE

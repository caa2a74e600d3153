SPECIFICATION Spec
INVARIANTS Tiled StackOk Counts PosOk
PROPERTY Progress
CHECK_DEADLOCK FALSE

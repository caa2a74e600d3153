SPECIFICATION Spec
INVARIANTS Balanced OneTokenEach
CHECK_DEADLOCK FALSE

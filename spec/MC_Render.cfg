SPECIFICATION Spec
INVARIANT OnePass
INVARIANT ReadBack
INVARIANT OneLineEach
CHECK_DEADLOCK FALSE

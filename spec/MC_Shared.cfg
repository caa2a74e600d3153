SPECIFICATION Spec
INVARIANT NoInterference
CHECK_DEADLOCK FALSE

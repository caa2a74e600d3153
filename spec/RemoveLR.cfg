SPECIFICATION Spec
INVARIANT Kept
INVARIANT Removed
INVARIANT NoEmpty
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS SameAsText WellFormed
CHECK_DEADLOCK FALSE

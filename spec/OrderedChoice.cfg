SPECIFICATION Spec
INVARIANTS AgreesWithTable NoReentry
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT TwoReadings
CHECK_DEADLOCK FALSE

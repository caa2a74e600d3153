SPECIFICATION Spec
INVARIANT RulesCounted
CHECK_DEADLOCK FALSE

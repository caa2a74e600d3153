SPECIFICATION Spec
INVARIANTS Exclusive OnceInOrder SameAsResult
CHECK_DEADLOCK FALSE

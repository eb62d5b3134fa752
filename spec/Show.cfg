SPECIFICATION Spec
INVARIANTS Reflexive Symmetric Faithful Complete
CHECK_DEADLOCK FALSE

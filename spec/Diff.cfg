SPECIFICATION Spec
INVARIANTS Reflexive Symmetric Faithful
CHECK_DEADLOCK FALSE

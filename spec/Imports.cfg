SPECIFICATION Spec
INVARIANT Once
INVARIANT Finite
INVARIANT AllIn
CHECK_DEADLOCK FALSE

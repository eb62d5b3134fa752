SPECIFICATION Spec
INVARIANT Visits
INVARIANT Inside
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Complete
INVARIANT Inside
INVARIANT WellNested
INVARIANT Unasked
INVARIANT Visits
CHECK_DEADLOCK FALSE

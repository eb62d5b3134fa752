SPECIFICATION Spec
INVARIANTS Inverse Ordered RoundTrip Written
CHECK_DEADLOCK FALSE

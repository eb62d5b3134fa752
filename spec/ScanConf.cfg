SPECIFICATION Spec
INVARIANTS Inside Partition Hull Kept Order
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS TypeOK Nesting CpOk TokensInside AgreesWithPeg
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Counted
CHECK_DEADLOCK FALSE

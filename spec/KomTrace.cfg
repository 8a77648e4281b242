SPECIFICATION Spec
INVARIANTS TypeOK Bounded
CHECK_DEADLOCK FALSE

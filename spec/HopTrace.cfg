SPECIFICATION Spec
INVARIANT EpochInv
CHECK_DEADLOCK FALSE

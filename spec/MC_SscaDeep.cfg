SPECIFICATION Spec
CONSTANT MaxN = 128
INVARIANTS Inside Injective
CHECK_DEADLOCK FALSE

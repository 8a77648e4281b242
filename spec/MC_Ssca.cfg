SPECIFICATION Spec
CONSTANT MaxN = 32
INVARIANTS Inside Injective
CHECK_DEADLOCK FALSE

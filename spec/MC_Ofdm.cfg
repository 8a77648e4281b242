SPECIFICATION Spec
CONSTANT MaxN = 10
INVARIANTS Placed Edges Inverse Prefix
CHECK_DEADLOCK FALSE

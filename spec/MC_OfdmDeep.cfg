SPECIFICATION Spec
CONSTANT MaxN = 24
INVARIANTS Placed Edges Inverse Prefix
CHECK_DEADLOCK FALSE

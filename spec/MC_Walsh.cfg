SPECIFICATION Spec
CONSTANT MaxOrder = 64
INVARIANTS Closed Orthogonal Balanced Enumerates Order
CHECK_DEADLOCK FALSE

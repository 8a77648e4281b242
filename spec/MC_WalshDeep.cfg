SPECIFICATION Spec
CONSTANT MaxOrder = 256
INVARIANTS Closed Orthogonal Balanced Enumerates Order
CHECK_DEADLOCK FALSE

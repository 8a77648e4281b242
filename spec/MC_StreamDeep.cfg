SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 5} MaxN = 16 Depth = 6 Emit = FALSE
INVARIANTS Lazy Eager Denotes
PROPERTY Final
CHECK_DEADLOCK FALSE

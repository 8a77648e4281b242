SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3} MaxN = 9 Depth = 4 Emit = FALSE
INVARIANTS Lazy Eager Denotes
PROPERTY Final
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Sizes = {1} MaxN = 30 Depth = 4 Emit = TRUE
INVARIANTS Lazy Denotes
CHECK_DEADLOCK FALSE

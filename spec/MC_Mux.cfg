SPECIFICATION Spec
CONSTANTS Orders = {2, 4, 8}
 MaxU = 3
 Gains = {1, 7}
INVARIANTS Separate Bounded
CHECK_DEADLOCK FALSE

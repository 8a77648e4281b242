SPECIFICATION Spec
CONSTANTS Ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}
INVARIANTS Tones Twice Parts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxB = 3
INVARIANTS Right Count Lazy
PROPERTIES Ends
CHECK_DEADLOCK FALSE

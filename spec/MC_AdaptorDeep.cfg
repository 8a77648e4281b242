SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxB = 4
INVARIANTS Right Count Lazy
PROPERTIES Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Ds = {1, 2, 3, 4, 5, 6, 7}
 E1s = {1, 2, 29, 113, 255}
 Step = 1
INVARIANTS IsSent Detects Corrects
CHECK_DEADLOCK FALSE

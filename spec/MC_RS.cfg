SPECIFICATION Spec
CONSTANTS Ds = {1, 3, 7}
 E1s = {1}
 Step = 3
INVARIANTS IsSent Detects Corrects
CHECK_DEADLOCK FALSE

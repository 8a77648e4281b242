SPECIFICATION Spec
CONSTANTS Ps = {8, 20, 64, 128}
 Div = 60
INVARIANTS Sides Undecided Once Middle
CHECK_DEADLOCK FALSE

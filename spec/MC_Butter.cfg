SPECIFICATION Spec
CONSTANTS Ps = {8, 20, 64}
 Div = 40
INVARIANTS Sides Undecided Once Middle
CHECK_DEADLOCK FALSE

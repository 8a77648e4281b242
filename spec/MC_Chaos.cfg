CONSTANTS G = 200 MuDen = 10
SPECIFICATION Spec
INVARIANT Bounded
CHECK_DEADLOCK FALSE

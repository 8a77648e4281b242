CONSTANTS G = 200
SPECIFICATION Spec
INVARIANTS Range DcskDecides CskDecides
CHECK_DEADLOCK FALSE

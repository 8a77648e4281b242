SPECIFICATION Spec
CONSTANTS MaxB = 8
 MaxN = 8
 Syms = 2
 Amps = {0, 3000, 8000}
INVARIANTS Right Mirrored
CHECK_DEADLOCK FALSE

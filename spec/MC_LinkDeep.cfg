SPECIFICATION Spec
CONSTANTS MaxB = 11
 MaxN = 11
 Syms = 2
 Amps = {0, 1000, 3000, 6000, 8000, 9900}
INVARIANTS Right Mirrored
CHECK_DEADLOCK FALSE

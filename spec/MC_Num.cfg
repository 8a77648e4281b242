SPECIFICATION Spec
CONSTANTS Bs = {1, 2, 3, 7, 64, 1000, 4095, 4097, 44100, 524287, 524288}
 Ns = {0, 1, 2, 3, 999, 4096, 65537, 262143, 524287}
INVARIANTS Steps Base Doubles Circle Mirror Rounds
CHECK_DEADLOCK FALSE

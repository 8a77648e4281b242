SPECIFICATION Spec
CONSTANTS MaxSps = 200
 Syms = 3
INVARIANTS Right
CHECK_DEADLOCK FALSE

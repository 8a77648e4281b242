SPECIFICATION Spec
CONSTANTS MaxSps = 130
 Syms = 3
INVARIANTS Right
CHECK_DEADLOCK FALSE

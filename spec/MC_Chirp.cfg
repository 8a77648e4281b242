SPECIFICATION Spec
CONSTANTS MaxN = 24
 D = 40
INVARIANTS Same Start Tone Mirror Meaning
CHECK_DEADLOCK FALSE

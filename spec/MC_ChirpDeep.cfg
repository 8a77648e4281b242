SPECIFICATION Spec
CONSTANTS MaxN = 64
 D = 60
INVARIANTS Same Start Tone Mirror Meaning
CHECK_DEADLOCK FALSE

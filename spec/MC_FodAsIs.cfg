CONSTANTS K = 3 Same = FALSE MaxLen = 7
SPECIFICATION Spec
INVARIANTS OncePerFrame Count
CHECK_DEADLOCK FALSE

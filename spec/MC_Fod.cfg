CONSTANTS K = 3 Same = TRUE MaxLen = 7
SPECIFICATION Spec
INVARIANTS OncePerFrame Count RoundTrip
CHECK_DEADLOCK FALSE

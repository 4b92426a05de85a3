SPECIFICATION SpecS
CONSTANTS
 W = 3
 J = 2
 B = 4
 K = 2
 Portable = FALSE
 LateLock = FALSE
INVARIANTS Ok


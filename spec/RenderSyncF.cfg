SPECIFICATION Spec
CONSTANTS
 W = 2
 J = 2
 B = 3
 K = 2
 Portable = FALSE
 LateLock = FALSE
INVARIANTS Ok
PROPERTY Finishes

SPECIFICATION Spec
CONSTANTS
 Workers = {1, 2, 3}
 NJ = 2
 NC = 2
 NB = 3
INVARIANTS ExactlyOnce Bands NoWorkOutside
CHECK_DEADLOCK FALSE

CONSTANTS Threads = {1, 2, 3, 4} MaxHandles = 6 MaxBlocks = 4 Start = 1
SPECIFICATION Spec
INVARIANTS Count FreedOnce NotYet Writer AllFreed
PROPERTY Eventually

CONSTANTS Threads = {1, 2, 3} MaxHandles = 4 MaxBlocks = 3 Start = 1
SPECIFICATION Spec
INVARIANTS Count FreedOnce NotYet Writer AllFreed
PROPERTY Eventually

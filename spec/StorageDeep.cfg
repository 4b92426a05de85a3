CONSTANTS
  Slots = {1, 2, 3}
  Blocks = {1, 2, 3, 4}
  Vals = {1, 2}
  InlineCap = 1
  MaxLen = 2
  Exts = {1, 2}
SPECIFICATION Spec
INVARIANTS RefCounts Capacity ReleasedOnce
CHECK_DEADLOCK FALSE

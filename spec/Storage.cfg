CONSTANTS
  Slots = {1, 2}
  Blocks = {1, 2, 3}
  Vals = {1, 2}
  InlineCap = 1
  MaxLen = 2
  Exts = {1}
SPECIFICATION Spec
INVARIANTS RefCounts Capacity ReleasedOnce
PROPERTIES Isolation ReadOnly Refines
CHECK_DEADLOCK FALSE

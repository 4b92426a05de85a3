CONSTANTS Slots = {1, 2}
 W = 40
 H = 40
INIT TraceInit
NEXT TraceNext

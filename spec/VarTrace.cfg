CONSTANTS Slots = {1, 2, 3, 4}
INIT TraceInit
NEXT TraceNext

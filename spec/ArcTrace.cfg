CONSTANTS Slots = {1, 2, 3}
INIT TraceInit
NEXT TraceNext

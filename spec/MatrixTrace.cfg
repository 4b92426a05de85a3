CONSTANTS U = 64
INIT TraceInit
NEXT TraceNext

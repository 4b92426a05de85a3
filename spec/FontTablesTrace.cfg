INIT TraceInit
NEXT TraceNext

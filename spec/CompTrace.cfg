INIT Init
NEXT TraceNext

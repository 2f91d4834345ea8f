SPECIFICATION TraceSpec
CONSTANT Judge <- Judge1
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeV
CHECK_DEADLOCK FALSE

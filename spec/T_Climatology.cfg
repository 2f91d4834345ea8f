SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC
CHECK_DEADLOCK FALSE

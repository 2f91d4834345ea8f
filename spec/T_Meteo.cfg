SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeM
CHECK_DEADLOCK FALSE

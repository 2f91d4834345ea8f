SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeL
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeG
CHECK_DEADLOCK FALSE

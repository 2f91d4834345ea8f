SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeS
CHECK_DEADLOCK FALSE

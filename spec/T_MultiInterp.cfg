SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeMulti
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeF
CHECK_DEADLOCK FALSE

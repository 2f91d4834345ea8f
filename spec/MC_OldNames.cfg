SPECIFICATION Spec
INVARIANTS EveryCall Forwarded EmitCase
CHECK_DEADLOCK FALSE

CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Ints Elementary
CHECK_DEADLOCK FALSE

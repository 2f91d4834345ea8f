SPECIFICATION Spec
CONSTANTS
    Sizes = {1, 2}
    Rich = TRUE
INVARIANTS FindInv EmitCase
CHECK_DEADLOCK FALSE

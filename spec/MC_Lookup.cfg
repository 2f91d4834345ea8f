SPECIFICATION Spec
CONSTANTS
    Sizes = {1, 2}
    Rich = FALSE
INVARIANTS FindInv EmitCase
CHECK_DEADLOCK FALSE

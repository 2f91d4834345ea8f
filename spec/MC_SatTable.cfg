SPECIFICATION Spec
CONSTANT Below = 6
INVARIANTS CarriedInv MonotoneInv MagnusInv EmitCase
CHECK_DEADLOCK FALSE

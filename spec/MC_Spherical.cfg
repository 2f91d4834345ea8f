SPECIFICATION Spec
CONSTANTS Degrees = {0, 1, 2, 3, 5}
INVARIANTS OrderInv CountInv OrthoInv TripInv AdditionInv MirrorInv ClosedInv EmitCase
CHECK_DEADLOCK FALSE

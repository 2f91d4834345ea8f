SPECIFICATION Spec
CONSTANTS Degrees = {0, 1, 2, 3, 4, 5, 6, 8, 23}
INVARIANTS OrderInv CountInv OrthoInv TripInv AdditionInv MirrorInv ClosedInv EmitCase
CHECK_DEADLOCK FALSE

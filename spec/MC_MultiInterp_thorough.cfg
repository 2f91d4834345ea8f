SPECIFICATION Spec
CONSTANTS
    LonGrid = {0, 30, 60, 90, 180, 250, 270, 340}
    MaxLon = 6
    StepLon = 5
    LatCounts = {2, 3, 5}
    StepLat = 5
    Turns = 7
INVARIANTS LonInv PlainInv NearInv TheoremInv BoundInv EmitCase
CHECK_DEADLOCK FALSE

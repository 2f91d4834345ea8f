SPECIFICATION Spec
CONSTANTS
    LonGrid = {0, 60, 90, 180, 250, 300, 350}
    MaxLon = 4
    StepLon = 10
    LatCounts = {2, 3}
    StepLat = 5
    Turns = 7
INVARIANTS LonInv PlainInv NearInv TheoremInv BoundInv EmitCase
CHECK_DEADLOCK FALSE

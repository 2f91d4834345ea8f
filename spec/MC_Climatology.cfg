SPECIFICATION Spec
CONSTANTS
    N = 6
    Cals <- QuickCals
    Starts <- QuickStarts
    Steps <- QuickSteps
INVARIANTS FineInv CoarseInv NothingLost ClimInv SeasonInv EmitCase
CHECK_DEADLOCK FALSE

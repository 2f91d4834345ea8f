SPECIFICATION Spec
CONSTANTS N = 12
          MaxGaps = 2
          Cals = {"proleptic_gregorian"}
INVARIANTS SeasonInv CentreInv QuarterInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 24
          MaxGaps = 2
          Cals = {"proleptic_gregorian", "360_day"}
INVARIANTS SeasonInv CentreInv QuarterInv EmitCase
CHECK_DEADLOCK FALSE

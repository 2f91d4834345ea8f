SPECIFICATION Spec
CONSTANTS N = 4
          Cals = {"proleptic_gregorian", "noleap", "360_day"}
          StartDays = {1, 15, 31}
INVARIANTS ReadInv PartInv LossInv EqualInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 5
          Cals = {"proleptic_gregorian", "noleap", "360_day", "julian", "all_leap"}
          StartDays = {1, 15, 31}
INVARIANTS ReadInv PartInv LossInv EqualInv EmitCase
CHECK_DEADLOCK FALSE

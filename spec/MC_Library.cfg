SPECIFICATION Spec
CONSTANTS MaxSteps = 4
          Faults = {"none", "in place", "stale", "shared", "retained", "counts"}
INVARIANTS NoBlame Blamed EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxSteps = 5
          Faults = {"none", "in place", "stale", "shared", "retained", "counts"}
INVARIANTS NoBlame Blamed EmitCase
CHECK_DEADLOCK FALSE

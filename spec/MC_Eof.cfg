SPECIFICATION Spec
CONSTANTS MaxTimes = 3
          Vals = {0, 1, 2, 4}
INVARIANTS LeadingInv NotLessInv TraceInv PcInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxTimes = 4
          Vals = {0, 1, 3}
INVARIANTS LeadingInv NotLessInv TraceInv PcInv EmitCase
CHECK_DEADLOCK FALSE

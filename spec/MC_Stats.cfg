SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Values = {0, 1, 3}
          Gaps = 1
INVARIANTS PearsonInv NmseInv EmitCase
CHECK_DEADLOCK FALSE

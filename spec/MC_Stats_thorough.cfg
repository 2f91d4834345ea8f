SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Values = {0, 1, 2, 5}
          Gaps = 2
INVARIANTS PearsonInv NmseInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 9
          MaxCalls = 2
          KernelN = 8
INVARIANTS SymmetricInv HistInv ComplementInv MeanInv KernelInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 14
          MaxCalls = 2
          KernelN = 12
INVARIANTS SymmetricInv HistInv ComplementInv MeanInv KernelInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Columns = 4
  Levels = 2
INVARIANTS
  PartitionInv
  PartialInv
  OnceInv
  DoneInv
  EmitCase
PROPERTY Finishes

SPECIFICATION Spec
CONSTANTS
  Columns = 3
  Levels = 3
INVARIANTS
  PartitionInv
  PartialInv
  OnceInv
  DoneInv
  EmitCase
PROPERTY Finishes

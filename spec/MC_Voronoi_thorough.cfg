SPECIFICATION Spec
CONSTANTS MaxPoints = 7
          Pool = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 15}
INVARIANTS TileInv ReverseInv ShrinkInv RegularInv EmitCase
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxPoints = 6
          Pool = {1, 2, 3, 4, 6, 7, 8, 9, 12, 14, 15}
INVARIANTS TileInv ReverseInv ShrinkInv RegularInv EmitCase
CHECK_DEADLOCK FALSE

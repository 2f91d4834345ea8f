SPECIFICATION Spec
CONSTANTS
    Grid = {2, 4, 6, 8, 12}
    MinLevels = 2
    MaxLevels = 4
    Targets = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
    Surfaces = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14}
INVARIANTS TileInv PositiveInv ThickInv StreamInv InterpInv EmitCase EmitInterp
CHECK_DEADLOCK FALSE

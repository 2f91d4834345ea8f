SPECIFICATION Spec
CONSTANTS
    As = {0, 2, 5}
    Bs = {0, 4, 11, 16}
    Surfaces = {16, 32, 80}
    Most = 3
    SigmaGrids <- Grids
INVARIANTS LevelInv LayerInv TileInv SigmaInv EmitCase
CHECK_DEADLOCK FALSE

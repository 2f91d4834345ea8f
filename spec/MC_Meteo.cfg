SPECIFICATION Spec
CONSTANTS
    Ts = {10, 31, 32, 33, 39, 40, 41, 60, 68, 69, 70, 71, 72, 74, 76, 77, 78, 79, 80, 81, 83, 86, 87, 88, 95, 100, 111, 112, 113, 120}
    Rs = {0, 1, 5, 12, 13, 14, 40, 60, 84, 85, 86, 92, 100}
INVARIANTS RegimeInv HeatInv DewInv SaturationInv TetensInv EmitCase
PROPERTIES Climb
CHECK_DEADLOCK FALSE

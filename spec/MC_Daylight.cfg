SPECIFICATION Spec
CONSTANTS
    HalfLats = {0, 1, 10, 23, 30, 40, 45, 55, 56, 60, 65, 66, 67, 80, 90}
    Step = 7
    LastDay = 366
INVARIANTS SideInv SymmetryInv RangeInv HalfInv PolarInv EmitCase
PROPERTIES NorthProp
CHECK_DEADLOCK FALSE

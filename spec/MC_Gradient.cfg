SPECIFICATION Spec
CONSTANTS MaxN = 4
          Steps = {1, 7, 25}
INVARIANTS WalkInv ConstInv ReverseInv DistanceInv LocalInv EmitCase
CHECK_DEADLOCK FALSE

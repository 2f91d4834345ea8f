SPECIFICATION Spec
CONSTANTS MaxN = 5
          Steps = {1, 25}
INVARIANTS WalkInv ConstInv ReverseInv DistanceInv LocalInv EmitCase
CHECK_DEADLOCK FALSE

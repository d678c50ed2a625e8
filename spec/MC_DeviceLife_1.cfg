CONSTANTS N = 1
 L = 3
 Trials = 2
 Chans = {"id", "x", "y", "z"}
 AvgL = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS UnitLength IdentityIsPerfect Bounded InverseIsInverse CanonRecovers SameIsInverse NearAverage

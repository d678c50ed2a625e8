CONSTANTS N = 2
 L = 2
 Trials = 1
 Chans = {"id", "x", "z", "zz", "cz"}
 AvgL = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS UnitLength IdentityIsPerfect Bounded InverseIsInverse CanonRecovers SameIsInverse NearAverage

CONSTANTS N = 2
 L = 1
 Trials = 1
 Chans = {"id", "x", "z"}
 AvgL = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS UnitLength IdentityIsPerfect Bounded InverseIsInverse CanonRecovers NearAverage

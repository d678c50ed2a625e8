CONSTANTS N = 2
 K = 1
 KB = 2
 WMax = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoTableBetter GreedyBest InRange Weights

CONSTANTS N = 3
 K = 1
 KB = 1
 WMax = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoTableBetter GreedyBest InRange Weights
